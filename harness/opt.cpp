// Rprop, GradientAscent and Adam driven by scripted values and gradients.
#include "common.hpp"
#include <limits>
#include <boost/optional.hpp>
#include <Eigen/Core>
#include <limbo/tools/macros.hpp>
#include <limbo/opt/rprop.hpp>
#include <limbo/opt/gradient_ascent.hpp>
#include <limbo/opt/adam.hpp>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;
struct Params {
    struct opt_rprop {
        BO_DYN_PARAM(int, iterations);
        BO_DYN_PARAM(double, eps_stop);
    };
    struct opt_gradient_ascent {
        BO_DYN_PARAM(int, iterations);
        BO_DYN_PARAM(double, eps_stop);
        BO_DYN_PARAM(double, gamma);
        BO_DYN_PARAM(bool, nesterov);
        BO_PARAM(double, alpha, 0.25);
    };
    struct opt_adam {
        BO_DYN_PARAM(int, iterations);
        BO_DYN_PARAM(double, eps_stop);
        BO_PARAM(double, alpha, 0.25);
        BO_PARAM(double, b1, 0.5);
        BO_PARAM(double, b2, 0.75);
    };
};
BO_DECLARE_DYN_PARAM(int, Params::opt_rprop, iterations);
BO_DECLARE_DYN_PARAM(double, Params::opt_rprop, eps_stop);
BO_DECLARE_DYN_PARAM(int, Params::opt_gradient_ascent, iterations);
BO_DECLARE_DYN_PARAM(double, Params::opt_gradient_ascent, eps_stop);
BO_DECLARE_DYN_PARAM(double, Params::opt_gradient_ascent, gamma);
BO_DECLARE_DYN_PARAM(bool, Params::opt_gradient_ascent, nesterov);
BO_DECLARE_DYN_PARAM(int, Params::opt_adam, iterations);
BO_DECLARE_DYN_PARAM(double, Params::opt_adam, eps_stop);

static std::vector<std::vector<long>> evs; // value, gradient
static size_t ne;
static double U, vscale = 1, gscale = 1;
static std::vector<long> ints(const V& x)
{
    std::vector<long> r;
    for (int i = 0; i < x.size(); i++) {
        double v = x(i) * U;
        r.push_back(!(std::abs(v) < 2.1e9) ? (v > 0 ? 2140000000 : -2140000000) : std::lround(v));
    }
    return r;
}
struct F {
    opt::eval_t operator()(const V& x, bool g) const
    {
        std::vector<long> e;
        if (ne < evs.size())
            e = evs[ne++];
        else
            e = std::vector<long>(x.size() + 1, 0); // more evaluations than in the specification
        std::vector<long> gr(e.begin() + 1, e.end());
        J("eval").li("x", ints(x)).i("v", e[0]).li("g", gr).emit();
        double v = e[0] == 99 ? std::nan("") : (e[0] == -100 ? -std::numeric_limits<double>::infinity() : e[0] * vscale);
        V grad(x.size());
        for (int i = 0; i < x.size(); i++)
            grad(i) = gr[i] * gscale;
        return {v, grad};
    }
};
int main()
{
    std::vector<std::string> t, c;
    int turn = 0;
    auto flush = [&]() {
        if (c.empty())
            return;
        // new alg u iters bounded dim eps gamma2 nesterov json startjson start...
        std::string alg = c[1];
        U = std::stod(c[2]);
        int iters = std::stoi(c[3]), dim = std::stoi(c[5]);
        bool bounded = c[4] == "1";
        double eps = std::stod(c[6]);
        V s(dim);
        for (int i = 0; i < dim; i++)
            s(i) = std::stod(c[11 + i]) / U;
        J("new").raw("cfg", c[9]).raw("start", c[10]).emit();
        ne = 0;
        const double scales[] = {1., 1e-9, 1e5};
        vscale = scales[turn++ % 3]; // only the order of the values matters
        gscale = c[9].find("\"tiny\":true") == std::string::npos ? 1. : 1e-8;
        V r;
        if (alg == "rprop") {
            Params::opt_rprop::set_iterations(iters);
            Params::opt_rprop::set_eps_stop(eps / 2.);
            r = opt::Rprop<Params>()(F(), s, bounded);
        }
        else if (alg == "ga") {
            Params::opt_gradient_ascent::set_iterations(iters);
            Params::opt_gradient_ascent::set_eps_stop(eps / U);
            Params::opt_gradient_ascent::set_gamma(std::stod(c[7]) / 2.);
            Params::opt_gradient_ascent::set_nesterov(c[8] == "1");
            r = opt::GradientAscent<Params>()(F(), s, bounded);
        }
        else {
            Params::opt_adam::set_iterations(iters);
            Params::opt_adam::set_eps_stop(eps / U);
            r = opt::Adam<Params>()(F(), s, bounded);
        }
        J("return").li("x", ints(r)).emit();
        c.clear();
        evs.clear();
    };
    while (mbv::next_line(t)) {
        if (t[0] == "new") {
            flush();
            c = t;
        }
        else {
            std::vector<long> e;
            for (size_t i = 1; i < t.size(); i++)
                e.push_back(std::stol(t[i]));
            evs.push_back(e);
        }
    }
    flush();
    return 0;
}
