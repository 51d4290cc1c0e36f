// Runs scripts of calls with experimental::IMGPO and records every evaluated point as a cell centre.
#include "common.hpp"
#include <limbo/limbo.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
#include <limbo/experimental/acqui/ucb_imgpo.hpp>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;
struct Params {
    struct bayes_opt_bobase : defaults::bayes_opt_bobase {
        BO_PARAM(int, stats_enabled, false);
    };
    struct bayes_opt_imgpo : defaults::bayes_opt_imgpo {
    };
    struct acqui_ucb_imgpo : defaults::acqui_ucb_imgpo {
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct kernel : defaults::kernel {
        BO_PARAM(double, noise, 0.01);
    };
    struct kernel_maternfivehalves : defaults::kernel_maternfivehalves {
        BO_PARAM(double, l, 0.3);
    };
    struct opt_rprop : defaults::opt_rprop {
    };
    struct opt_parallelrepeater : defaults::opt_parallelrepeater {
    };
};
BO_DECLARE_DYN_PARAM(int, Params::stop_maxiterations, iterations);

static int dim, dout;
static unsigned long seed;
static std::string kind, agg;
static bool twin;
struct Deep {
};

static double hashed(const V& x, long salt) // a number in [0, 1)
{
    unsigned long h = seed * 1000003ul + salt * 7919ul + 12345;
    for (int i = 0; i < x.size(); i++) {
        h ^= (unsigned long)std::llround(x(i) * 1e9) + 0x9e3779b97f4a7c15ul + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdul;
        h ^= h >> 33;
    }
    return (h % 1000000ul) / 1e6;
}
struct Afun {
    using result_type = double;
    double operator()(const V& y) const
    {
        if (twin || agg == "first")
            return y(0);
        return agg == "last" ? y(y.size() - 1) : y.sum();
    }
};
static double raw(const V& x, int k)
{
    V c(x.size());
    for (int i = 0; i < x.size(); i++) {
        V q(1);
        q << i;
        c(i) = hashed(q, 17 + k);
    }
    if (kind == "peak")
        return -(x - c).squaredNorm();
    if (kind == "noise")
        return -hashed(x, 100 + k);
    if (kind == "flat")
        return -0.5;
    if (kind == "steps")
        return -std::floor(3 * (x - c).cwiseAbs().maxCoeff()) / 3;
    return -(x.array() - (k % 2)).abs().sum();
}
static V combine(const V& v)
{
    if (!twin)
        return v;
    V r(1);
    r << (agg == "last" ? v(v.size() - 1) : v(0));
    return r;
}
static const double eps = 2e-15; // rounding of coordinates; cells down to 3^-28 are told apart
static std::string centre(const V& x)
{
    std::vector<std::string> r;
    for (int i = 0; i < x.size(); i++) {
        long m = 0, k = -1, p = 1;
        for (m = 0; m <= 18; m++, p *= 3) {
            double t = x(i) * p - 0.5;
            if (std::fabs(t - std::round(t)) < eps * p && x(i) >= 0 && x(i) <= 1) {
                k = std::lround(t);
                break;
            }
        }
        r.push_back(J::list(std::vector<long>{m, k}));
    }
    return J::list(r);
}
static std::string centres(const std::vector<V>& s)
{
    std::vector<std::string> r;
    for (auto& x : s)
        r.push_back(centre(x));
    return J::list(r);
}
static V f(const V& x)
{
    V r(dout);
    for (int k = 0; k < dout; k++)
        r(k) = raw(x, k);
    return combine(r);
}
struct Fun {
    static size_t dim_in() { return dim; }
    static size_t dim_out() { return twin ? 1 : dout; }
    V operator()(const V& x) const
    {
        // cells that are too small for the numbers of the specification: the run is not followed further
        for (int i = 0; i < x.size(); i++) {
            double p = 1;
            bool deep = false;
            for (int m = 0; m <= 28; m++, p *= 3) {
                double t = x(i) * p - 0.5;
                if (std::fabs(t - std::round(t)) < eps * p) {
                    deep = m > 18;
                    break;
                }
            }
            if (deep)
                throw Deep();
        }
        J("eval").raw("x", centre(x)).emit();
        return f(x);
    }
};
struct Mock {
    int n = 0;
    Mock() {}
    Mock(int, int) {}
    void compute(const std::vector<V>& s, const std::vector<V>&, bool = true) { n = s.size(); }
    void add_sample(const V&, const V&) { n++; }
    void optimize_hyperparams() {}
    int dim_in() const { return dim; }
    int dim_out() const { return twin ? 1 : dout; }
    int nb_samples() const { return n; }
    std::tuple<V, double> query(const V& x) const
    {
        V r(dout);
        for (int k = 0; k < dout; k++)
            r(k) = 2.5 * hashed(x, 1000 + 10 * n + k) - 2;
        return std::make_tuple(combine(r), 0.002 + 0.1 * hashed(x, 5000 + n));
    }
};
using GP = model::GP<Params, kernel::MaternFiveHalves<Params>, mean::Data<Params>>;
struct Record {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A&)
    {
        bool paired = bo.samples().size() == bo.observations().size();
        for (size_t i = 0; paired && i < bo.samples().size(); i++)
            paired = bo.observations()[i] == f(bo.samples()[i]);
        J("stats").i("cur", bo.current_iteration()).i("tot", bo.total_iterations()).i("n", bo.samples().size()).raw("last", bo.samples().empty() ? "0" : centre(bo.samples().back())).b("paired", paired).emit();
    }
};
using Cmds = std::vector<std::vector<std::string>>;
template <typename BO>
void play(const Cmds& cmds)
{
    BO bo;
    for (auto& c : cmds) {
        Params::stop_maxiterations::set_iterations(std::stoi(c[2]));
        J("start").b("reset", c[1] == "1").i("iters", std::stoi(c[2])).emit();
        try {
            bo.optimize(Fun(), Afun(), c[1] == "1");
        }
        catch (const Deep&) {
            J("deep").emit();
            return;
        }
        bool paired = bo.samples().size() == bo.observations().size();
        for (size_t i = 0; paired && i < bo.samples().size(); i++)
            paired = bo.observations()[i] == f(bo.samples()[i]);
        bool best = true;
        if (!bo.samples().empty()) {
            V b = bo.best_observation(Afun());
            for (auto& y : bo.observations())
                best = best && Afun()(y) <= Afun()(b);
            best = best && f(bo.best_sample(Afun())) == b;
        }
        J("return").i("cur", bo.current_iteration()).i("tot", bo.total_iterations()).raw("xs", centres(bo.samples())).b("paired", paired).b("best", best).emit();
    }
    J("end").emit();
}
template <typename M>
using BO = bayes_opt::experimental::IMGPO<Params, modelfun<M>, initfun<init::NoInit<Params>>, acquifun<acqui::experimental::UCB_IMGPO<Params, M>>, statsfun<Record>>;

int main()
{
    std::vector<std::string> t, cfg;
    Cmds cur;
    auto flush = [&]() {
        if (cfg.empty())
            return;
        // new dim seed kind model afun
        dim = std::stoi(cfg[1]);
        seed = std::stoul(cfg[2]);
        kind = cfg[3];
        agg = cfg[5];
        dout = 3;
        twin = false;
        J("new").i("dim", dim).t("kind", kind).t("model", cfg[4]).t("afun", agg).emit();
        if (cfg[4] == "gp")
            play<BO<GP>>(cur);
        else {
            play<BO<Mock>>(cur);
            if (agg != "sum") {
                twin = true;
                J("twin").emit();
                play<BO<Mock>>(cur);
            }
        }
        cfg.clear();
        cur.clear();
    };
    while (mbv::next_line(t)) {
        if (t[0] == "new") {
            flush();
            cfg = t;
        }
        else
            cur.push_back(t);
    }
    flush();
    return 0;
}
