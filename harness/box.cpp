// Every inner optimiser, through several calls of the same object, with adversarial objectives: classes of the points evaluated.
#ifndef USE_NLOPT
#define USE_NLOPT
#endif
#include "common.hpp"
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <boost/optional.hpp>
#include <Eigen/Core>
#include <limbo/tools/macros.hpp>
#include <limbo/tools/parallel.hpp>
#include <limbo/opt/rprop.hpp>
#include <limbo/opt/gradient_ascent.hpp>
#include <limbo/opt/adam.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/random_point.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/chained.hpp>
#include <limbo/opt/nlopt_grad.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;
struct Params {
    struct opt_rprop {
        BO_PARAM(int, iterations, 60);
        BO_PARAM(double, eps_stop, 0.0);
    };
    struct opt_gradient_ascent {
        BO_PARAM(int, iterations, 60);
        BO_PARAM(double, eps_stop, 0.0);
        BO_PARAM(double, alpha, 0.3);
        BO_PARAM(double, gamma, 0.8);
        BO_PARAM(bool, nesterov, true);
    };
    struct opt_adam {
        BO_PARAM(int, iterations, 60);
        BO_PARAM(double, eps_stop, 0.0);
        BO_PARAM(double, alpha, 0.2);
        BO_PARAM(double, b1, 0.9);
        BO_PARAM(double, b2, 0.99);
    };
    struct opt_gridsearch {
        BO_PARAM(int, bins, 3);
    };
    struct opt_parallelrepeater {
        BO_PARAM(int, repeats, 6);
        BO_PARAM(double, epsilon, 0.3);
    };
    struct opt_nloptgrad {
        BO_PARAM(int, iterations, 60);
        BO_PARAM(double, fun_tolerance, -1);
        BO_PARAM(double, xrel_tolerance, -1);
    };
    struct opt_nloptnograd {
        BO_PARAM(int, iterations, 60);
        BO_PARAM(double, fun_tolerance, -1);
        BO_PARAM(double, xrel_tolerance, -1);
    };
};
struct Params2 : public Params {
    struct opt_gridsearch {
        BO_PARAM(int, bins, 7);
    };
    struct opt_gradient_ascent {
        BO_PARAM(int, iterations, 60);
        BO_PARAM(double, eps_stop, 0.0);
        BO_PARAM(double, alpha, 5.);
        BO_PARAM(double, gamma, 0.0);
        BO_PARAM(bool, nesterov, false);
    };
};
static std::string cls(double v) { return v >= 0 && v <= 1 ? "in" : (v < 0 ? "low" : (v > 1 ? "high" : "nan")); }
static std::string classes(const V& x)
{
    std::vector<std::string> r;
    for (int i = 0; i < x.size(); i++)
        r.push_back(J::str(cls(x(i))));
    return J::list(r);
}
static std::mutex mx;
static long nev;
static std::set<std::string> seen;
struct F {
    int id;
    opt::eval_t operator()(const V& x, bool) const
    {
        {
            std::lock_guard<std::mutex> g(mx);
            nev++;
            std::string c = classes(x);
            if (seen.insert(c).second)
                J("eval").raw("p", c).emit();
        }
        const double inf = std::numeric_limits<double>::infinity();
        V g = V::Zero(x.size());
        double v = 0;
        switch (id) {
        case 0: // optimum inside
            g = -2. * (x.array() - 0.37).matrix();
            v = -(x.array() - 0.37).matrix().squaredNorm();
            break;
        case 1: // pushes up
            g.setConstant(3.);
            v = 3. * x.sum();
            break;
        case 2: // pushes down
            g.setConstant(-3.);
            v = -3. * x.sum();
            break;
        case 3: // constant
            break;
        case 4: // wild values and gradients
            for (int i = 0; i < x.size(); i++)
                g(i) = 1e6 * std::sin(1e4 * x(i) + i);
            v = 100 * std::sin(1e3 * x.sum());
            break;
        case 5: // optimum far outside
            g = -2. * (x.array() - 25.).matrix();
            v = -(x.array() - 25.).matrix().squaredNorm();
            break;
        case 6: // optimum just outside, in opposite directions
            for (int i = 0; i < x.size(); i++) {
                double o = i % 2 ? -1e-3 : 1 + 1e-3;
                g(i) = -2. * (x(i) - o);
                v -= (x(i) - o) * (x(i) - o);
            }
            break;
        case 7: // steps
            for (int i = 0; i < x.size(); i++)
                v += std::floor(7 * x(i));
            g.setConstant(1e-3);
            break;
        case 8: // -inf in half of the space
            v = x(0) < 0.5 ? -inf : x.sum();
            g.setConstant(1.);
            break;
        case 9: // never a number
            v = std::nan("");
            g.setConstant(-1.);
            break;
        }
        return {v, g};
    }
};
using Fn = std::function<V(const F&, const V&, bool)>;
template <typename O>
Fn mk()
{
    auto o = std::make_shared<O>();
    return [o](const F& f, const V& s, bool b) { return (*o)(f, s, b); };
}
template <nlopt::algorithm A>
using NG = opt::NLOptGrad<Params, A>;
template <nlopt::algorithm A>
using NN = opt::NLOptNoGrad<Params, A>;
static Fn make(const std::string& k)
{
    static std::map<std::string, std::function<Fn()>> m = {
        {"rprop", mk<opt::Rprop<Params>>},
        {"ga", mk<opt::GradientAscent<Params>>},
        {"ga2", mk<opt::GradientAscent<Params2>>},
        {"adam", mk<opt::Adam<Params>>},
        {"grid", mk<opt::GridSearch<Params>>},
        {"grid7", mk<opt::GridSearch<Params2>>},
        {"random", mk<opt::RandomPoint<Params>>},
        {"rep_rprop", mk<opt::ParallelRepeater<Params, opt::Rprop<Params>>>},
        {"rep_sbplx", mk<opt::ParallelRepeater<Params, NN<nlopt::LN_SBPLX>>>},
        {"rep_adam", mk<opt::ParallelRepeater<Params, opt::Adam<Params>>>},
        {"chain", mk<opt::Chained<Params, NN<nlopt::GN_DIRECT_L_RAND>, NN<nlopt::LN_SBPLX>>>},
        {"chain3", mk<opt::Chained<Params, opt::ParallelRepeater<Params, opt::GradientAscent<Params>>, opt::Adam<Params>, NG<nlopt::LD_SLSQP>>>},
        {"lbfgs", mk<NG<nlopt::LD_LBFGS>>},
        {"mma", mk<NG<nlopt::LD_MMA>>},
        {"slsqp", mk<NG<nlopt::LD_SLSQP>>},
        {"tnewton", mk<NG<nlopt::LD_TNEWTON>>},
        {"var2", mk<NG<nlopt::LD_VAR2>>},
        {"cobyla", mk<NN<nlopt::LN_COBYLA>>},
        {"bobyqa", mk<NN<nlopt::LN_BOBYQA>>},
        {"neldermead", mk<NN<nlopt::LN_NELDERMEAD>>},
        {"sbplx", mk<NN<nlopt::LN_SBPLX>>},
        {"direct", mk<NN<nlopt::GN_DIRECT_L>>},
        {"crs", mk<NN<nlopt::GN_CRS2_LM>>},
        {"esch", mk<NN<nlopt::GN_ESCH>>},
        {"isres", mk<NN<nlopt::GN_ISRES>>},
    };
    if (!m.count(k))
        mbv::die("unknown optimiser " + k);
    return m[k]();
}
static double val(const F& f, const V& x) { return opt::fun(f(x, false)); }
// is the result worse than the start (brought back into the box when bounded)?
static bool worse(const F& f, V s, const V& r, bool bounded)
{
    if (bounded)
        s = s.cwiseMax(0.).cwiseMin(1.);
    seen.insert(classes(s));
    seen.insert(classes(r));
    double a = val(f, s), b = val(f, r);
    return b < a - 1e-9 * (1 + std::abs(a));
}
// is the result the maximum of a concave quadratic objective?
static bool reached(int id, const V& r, bool bounded)
{
    for (int i = 0; i < r.size(); i++) {
        double o = id == 0 ? 0.37 : id == 1 ? 1 : id == 2 ? 0 : id == 5 ? 25 : id == 6 ? (i % 2 ? -1e-3 : 1 + 1e-3) : std::nan("");
        if (bounded)
            o = std::min(1., std::max(0., o));
        if (!(std::abs(r(i) - o) < 1e-2))
            return false;
    }
    return true;
}
int main()
{
    nlopt::srand(1);
    const double code[] = {0.31, 0., 1., -1e-12, -3.7, 1 + 1e-12, 4.2, 1e6};
    std::vector<std::string> t;
    Fn o;
    while (mbv::next_line(t)) {
        if (t[0] == "new") {
            o = make(t[1]);
            J("new").t("kind", t[1].substr(0, 4) == "grid" ? "grid" : t[1]).t("opt", t[1]).emit();
        }
        else { // call bounded dim obj start...
            bool b = t[1] == "1";
            int d = std::stoi(t[2]);
            V s(d);
            for (int i = 0; i < d; i++)
                s(i) = code[std::stoi(t[4 + i].substr(1))];
            J("call").b("bounded", b).i("dim", d).raw("start", classes(s)).raw("obj", t[3]).emit();
            seen.clear();
            nev = 0;
            F f{std::stoi(t[3])};
            V r = o(f, s, b);
            long n = nev;
            J("return").raw("p", classes(r)).i("n", n).b("worse", worse(f, s, r, b)).b("best", reached(f.id, r, b)).emit();
        }
    }
    return 0;
}
