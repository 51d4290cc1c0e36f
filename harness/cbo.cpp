// CBOptimizer with recording components.
#include "common.hpp"
#include <limbo/limbo.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;
struct Params {
    struct bayes_opt_bobase : defaults::bayes_opt_bobase {
        BO_PARAM(int, stats_enabled, false);
    };
    struct bayes_opt_cboptimizer {
        BO_DYN_PARAM(int, hp_period);
        BO_PARAM(bool, bounded, true);
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
};
BO_DECLARE_DYN_PARAM(int, Params::bayes_opt_cboptimizer, hp_period);
BO_DECLARE_DYN_PARAM(int, Params::stop_maxiterations, iterations);
struct Out {
    bool ok;
    std::vector<long> y;
};
static std::vector<Out> outs;
static size_t next_out;
static long nx;
static int dout, ncon, ninit;
static V point(long id)
{
    V v(2);
    v << id / 1024., 0.25;
    return v;
}
static long pid(const V& v) { return v.size() != 2 || v(1) != 0.25 ? -1 : std::lround(v(0) * 1024.); }
static std::string ints(const V& v)
{
    std::vector<long> r;
    for (int i = 0; i < v.size(); i++)
        r.push_back(std::isfinite(v(i)) ? std::lround(v(i)) : -99999);
    return J::list(r);
}
static std::string xs(const std::vector<V>& s)
{
    std::vector<long> r;
    for (auto& x : s)
        r.push_back(pid(x));
    return J::list(r);
}
static std::string ys(const std::vector<V>& s)
{
    std::vector<std::string> r;
    for (auto& x : s)
        r.push_back(ints(x));
    return J::list(r);
}
struct Fun {
    static size_t dim_in() { return 2; }
    static size_t dim_out() { return dout; }
    static size_t nb_constraints() { return ncon; }
    V operator()(const V& x) const
    {
        if (next_out >= outs.size()) {
            J("overrun").emit();
            _exit(0);
        }
        Out o = outs[next_out++];
        J("eval").i("x", pid(x)).b("ok", o.ok).li("y", o.y).emit();
        if (!o.ok && next_out % 2)
            throw std::runtime_error("scripted");
        V v(o.y.size());
        for (size_t i = 0; i < o.y.size(); i++)
            v(i) = o.ok ? o.y[i] : std::nan("");
        return v;
    }
};
struct Afun {
    using result_type = double;
    std::string a = "first";
    double operator()(const V& y) const { return a == "first" ? y(0) : a == "sum" ? y.sum() : a == "neg" ? -y(0) : y(y.size() - 1); }
};
template <char W>
struct Model {
    int din = -1, dout_ = -1;
    std::vector<V> s, o;
    Model() {}
    Model(int a, int b) : din(a), dout_(b) {}
    void compute(const std::vector<V>& a, const std::vector<V>& b, bool = true)
    {
        s = a;
        o = b;
        if (!b.empty())
            dout_ = b[0].size();
    }
    void add_sample(const V& a, const V& b)
    {
        s.push_back(a);
        o.push_back(b);
        dout_ = b.size();
    }
    std::string json() const
    {
        std::vector<std::string> r;
        for (size_t i = 0; i < std::max(s.size(), o.size()); i++)
            r.push_back("[" + std::to_string(i < s.size() ? pid(s[i]) : -7) + "," + (i < o.size() ? ints(o[i]) : "[]") + "]");
        return J::list(r);
    }
    void optimize_hyperparams() { J("tune").t("w", std::string(1, W)).raw("data", json()).emit(); }
    int dim_in() const { return 2; }
    int dim_out() const { return dout_; }
    int nb_samples() const { return s.size(); }
};
using M = Model<'m'>;
using C = Model<'c'>;
struct Acqui {
    const M& m;
    const C& c;
    int it;
    Acqui(const M& m, const C& c, int it) : m(m), c(c), it(it) {}
    size_t dim_in() const { return 2; }
    template <typename A>
    opt::eval_t operator()(const V& v, const A&, bool) const
    {
        J("propose").i("it", it).raw("mod", m.json()).raw("con", c.json()).emit();
        return opt::no_grad(0.);
    }
};
struct Opt {
    template <typename F>
    V operator()(const F& f, const V& init, bool) const
    {
        f(init, false);
        return point(nx++);
    }
};
struct Init {
    template <typename S, typename A, typename O>
    void operator()(const S& seval, const A&, O& opt) const
    {
        for (int i = 0; i < ninit; i++)
            opt.eval_and_add(seval, point(nx++));
    }
};
struct Stat {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A&)
    {
        J("stat").i("it", bo.current_iteration()).i("tot", bo.total_iterations()).raw("xs", xs(bo.samples())).raw("ys", ys(bo.observations())).emit();
    }
};
using BO = experimental::bayes_opt::CBOptimizer<Params, modelfun<M>, experimental::constraint_modelfun<C>, acquifun<Acqui>, acquiopt<Opt>, initfun<Init>,
    statsfun<boost::fusion::vector<Stat>>, stopcrit<boost::fusion::vector<stop::MaxIterations<Params>>>>;
int main()
{
    std::vector<std::string> t;
    std::vector<bool> starts;
    std::vector<size_t> pos;
    std::unique_ptr<BO> bo;
    struct Cmd {
        bool start, reset;
    };
    std::vector<std::vector<std::string>> block;
    auto flush = [&]() {
        if (block.empty())
            return;
        auto& n = block[0]; // new dout ncon ninit iters hp json
        dout = std::stoi(n[1]);
        ncon = std::stoi(n[2]);
        ninit = std::stoi(n[3]);
        Params::stop_maxiterations::set_iterations(std::stoi(n[4]));
        Params::bayes_opt_cboptimizer::set_hp_period(std::stoi(n[5]));
        J("new").raw("cfg", n[6]).emit();
        outs.clear();
        next_out = 0;
        nx = 1;
        for (auto& b : block)
            if (b[0] == "eval") {
                Out o;
                o.ok = b[1] == "1";
                for (size_t i = 2; i < b.size(); i++)
                    o.y.push_back(std::stol(b[i]));
                outs.push_back(o);
            }
        bo.reset(new BO());
        int turn = 0;
        for (auto& b : block) {
            if (b[0] != "start")
                continue;
            J("start").b("reset", b[1] == "1").emit();
            bool raised = false;
            try {
                bo->optimize(Fun(), Afun{turn++ % 2 ? "sum" : "first"}, b[1] == "1");
            }
            catch (const std::exception&) {
                raised = true;
            }
            catch (...) {
                raised = true;
            }
            if (raised)
                J("raise").emit();
            else
                J("end").i("it", bo->current_iteration()).i("tot", bo->total_iterations()).emit();
            auto hist = [&]() { J("hist").raw("xs", xs(bo->samples())).raw("ys", ys(bo->observations())).emit(); };
            hist();
            // a model with no data has no dimension before the first successful training
            if (!bo->samples().empty() && bo->model().dim_out() > 0) {
                for (std::string a : {"first", "sum", "neg", "last"}) {
                    V y = bo->best_observation(Afun{a});
                    V x = bo->best_sample(Afun{a});
                    J("best").t("a", a).raw("y", ints(y)).i("x", pid(x)).emit();
                }
                hist();
            }
        }
        block.clear();
    };
    while (mbv::next_line(t)) {
        if (t[0] == "new")
            flush();
        block.push_back(t);
    }
    flush();
    return 0;
}
