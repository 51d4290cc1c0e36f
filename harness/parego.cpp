// ParEGO: the scalarising model alone, and the optimiser with a recording acquisition function.
#include "common.hpp"
#include <limbo/limbo.hpp>
#include <limbo/experimental/bayes_opt/parego.hpp>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;
struct Params {
    struct bayes_opt_bobase : defaults::bayes_opt_bobase {
        BO_PARAM(int, stats_enabled, false);
    };
    struct bayes_opt_boptimizer {
        BO_DYN_PARAM(int, hp_period);
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct model_gp_parego {
        BO_DYN_PARAM(double, rho);
    };
    struct kernel : defaults::kernel {
        BO_PARAM(double, noise, 0.01);
    };
    struct kernel_exp : defaults::kernel_exp {
    };
};
BO_DECLARE_DYN_PARAM(int, Params::bayes_opt_boptimizer, hp_period);
BO_DECLARE_DYN_PARAM(int, Params::stop_maxiterations, iterations);
BO_DECLARE_DYN_PARAM(double, Params::model_gp_parego, rho);
struct Tune {
    template <typename GP>
    void operator()(GP& gp)
    {
        V p = gp.kernel_function().params();
        p(0) += 0.125;
        gp.kernel_function().set_params(p);
        gp.recompute(false);
    }
};
using GP = model::GP<Params, kernel::Exp<Params>, mean::Data<Params>, Tune>;
using M = experimental::model::GPParego<Params, GP>;
struct Out {
    bool ok;
    std::vector<long> y;
};
static std::vector<Out> outs;
static size_t next_out;
static long nx;
static int dout, ninit;
static V point(long id)
{
    V v(2);
    v << id / 1024., 0.25;
    return v;
}
static long pid(const V& v) { return v.size() != 2 || v(1) != 0.25 ? -1 : std::lround(v(0) * 1024.); }
static std::string ints(const V& v)
{
    std::vector<long> r;
    for (int i = 0; i < v.size(); i++)
        r.push_back(std::isfinite(v(i)) ? std::lround(v(i)) : -99999);
    return J::list(r);
}
static std::string xs(const std::vector<V>& s)
{
    std::vector<long> r;
    for (auto& x : s)
        r.push_back(pid(x));
    return J::list(r);
}
static std::string ys(const std::vector<V>& s)
{
    std::vector<std::string> r;
    for (auto& x : s)
        r.push_back(ints(x));
    return J::list(r);
}
template <typename Mod>
static void look(J& j, const Mod& m)
{
    std::vector<long> s;
    std::string w;
    if (m.nb_samples() > 0) {
        Eigen::MatrixXd o = m.observations_matrix();
        bool bad = o.cols() != 1;
        for (int i = 0; i < o.rows(); i++)
            s.push_back(!bad && std::isfinite(o(i, 0)) && std::abs(o(i, 0)) < 50 ? std::lround(o(i, 0) * 20000) : -2000000);
        char b[64];
        snprintf(b, sizeof b, "%a", o(0, 0));
        w = b;
    }
    std::vector<long> ids;
    for (auto& x : m.samples())
        ids.push_back(pid(x));
    j.li("xs", ids).li("s", s).t("w", w);
}
struct Fun {
    static size_t dim_in() { return 2; }
    static size_t dim_out() { return dout; }
    V operator()(const V& x) const
    {
        if (next_out >= outs.size()) {
            J("overrun").emit();
            _exit(0);
        }
        Out o = outs[next_out++];
        J("eval").i("x", pid(x)).b("ok", o.ok).li("y", o.y).emit();
        if (!o.ok && next_out % 2)
            throw std::runtime_error("scripted");
        V v(o.y.size());
        for (size_t i = 0; i < o.y.size(); i++)
            v(i) = o.ok ? o.y[i] : std::nan("");
        return v;
    }
};
template <typename Mod>
struct Acqui {
    const Mod& m;
    int it;
    Acqui(const Mod& m, int it) : m(m), it(it) {}
    size_t dim_in() const { return 2; }
    size_t dim_out() const { return 1; }
    template <typename A>
    opt::eval_t operator()(const V& v, const A&, bool) const
    {
        J j("propose");
        j.i("it", it);
        look(j, m);
        j.emit();
        return opt::no_grad(0.);
    }
};
struct Opt {
    template <typename F>
    V operator()(const F& f, const V& init, bool) const
    {
        f(init, false);
        return point(nx++);
    }
};
struct Init {
    template <typename S, typename A, typename O>
    void operator()(const S& seval, const A&, O& opt) const
    {
        for (int i = 0; i < ninit; i++)
            opt.eval_and_add(seval, point(nx++));
    }
};
using BO = experimental::bayes_opt::Parego<Params, experimental::bayes_opt::parego_modelfun<GP>, acquifun<Acqui<M>>, acquiopt<Opt>, initfun<Init>,
    stopcrit<boost::fusion::vector<stop::MaxIterations<Params>>>>;
static V vec(const std::vector<std::string>& t, size_t a, size_t n)
{
    V v(n);
    for (size_t i = 0; i < n; i++)
        v(i) = std::stod(t[a + i]);
    return v;
}
static void shown(const M& m)
{
    J j("look");
    look(j, m);
    j.emit();
}
int main()
{
    std::vector<std::string> t;
    std::unique_ptr<BO> bo;
    std::unique_ptr<M> m;
    std::vector<std::vector<std::string>> block;
    auto flush = [&]() {
        if (block.empty())
            return;
        auto& n = block[0]; // new mode d rho ninit iters hp json
        dout = std::stoi(n[2]);
        Params::model_gp_parego::set_rho(std::stoi(n[3]) / 1000.);
        ninit = std::stoi(n[4]);
        Params::stop_maxiterations::set_iterations(std::stoi(n[5]));
        Params::bayes_opt_boptimizer::set_hp_period(std::stoi(n[6]));
        J("new").raw("cfg", n[7]).emit();
        if (n[1] == "model") {
            m.reset(new M(2, dout));
            for (size_t k = 1; k < block.size(); k++) {
                auto& b = block[k];
                if (b[0] == "compute") { // compute d n (x y..)*
                    int d = std::stoi(b[1]), c = std::stoi(b[2]);
                    std::vector<V> x, y;
                    std::vector<long> ids;
                    for (int i = 0; i < c; i++) {
                        ids.push_back(std::stol(b[3 + i * (d + 1)]));
                        x.push_back(point(ids.back()));
                        y.push_back(vec(b, 4 + i * (d + 1), d));
                    }
                    J("compute").i("d", d).li("xs", ids).raw("ys", ys(y)).emit();
                    dout = d;
                    m->compute(x, y);
                }
                else if (b[0] == "add") {
                    V y = vec(b, 2, b.size() - 2);
                    J("add").i("x", std::stol(b[1])).raw("y", ints(y)).emit();
                    m->add_sample(point(std::stol(b[1])), y);
                }
                else {
                    J(b[0]).emit();
                    if (b[0] == "copy") {
                        std::unique_ptr<M> c(new M(*m));
                        m = std::move(c);
                    }
                    else if (b[0] == "recompute")
                        m->recompute(true);
                    else
                        m->optimize_hyperparams();
                }
                shown(*m);
                if (k % 3 == 0)
                    shown(*m);
            }
        }
        else {
            outs.clear();
            next_out = 0;
            nx = 1;
            for (auto& b : block)
                if (b[0] == "eval") {
                    Out o;
                    o.ok = b[1] == "1";
                    for (size_t i = 2; i < b.size(); i++)
                        o.y.push_back(std::stol(b[i]));
                    outs.push_back(o);
                }
            bo.reset(new BO());
            for (auto& b : block) {
                if (b[0] != "start")
                    continue;
                J("start").b("reset", b[1] == "1").emit();
                bool raised = false;
                try {
                    bo->optimize(Fun(), FirstElem(), b[1] == "1");
                }
                catch (...) {
                    raised = true;
                }
                if (raised)
                    J("raise").emit();
                else
                    J("end").i("it", bo->current_iteration()).i("tot", bo->total_iterations()).emit();
                J("hist").raw("xs", xs(bo->samples())).raw("ys", ys(bo->observations())).emit();
                J j("look");
                look(j, bo->model());
                j.emit();
            }
        }
        block.clear();
    };
    while (mbv::next_line(t)) {
        if (t[0] == "new")
            flush();
        block.push_back(t);
    }
    flush();
    return 0;
}
