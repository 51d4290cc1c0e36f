// Components which tell that they are used, for the optimisers with named template arguments.
#include "common.hpp"
#include <limbo/limbo.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/experimental/bayes_opt/parego.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
#include <map>
#include <set>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;
struct Params {
    struct bayes_opt_bobase {
        BO_PARAM(bool, stats_enabled, true);
        BO_PARAM(bool, bounded, true);
    };
    struct bayes_opt_boptimizer {
        BO_PARAM(int, hp_period, -1);
    };
    struct bayes_opt_cboptimizer : limbo::defaults::bayes_opt_cboptimizer {
    };
    struct bayes_opt_ehvi : limbo::defaults::bayes_opt_ehvi {
    };
    struct bayes_opt_imgpo : limbo::defaults::bayes_opt_imgpo {
    };
    struct model_gp_parego : limbo::experimental::defaults::model_gp_parego {
    };
    struct kernel : limbo::defaults::kernel {
    };
    struct kernel_exp : limbo::defaults::kernel_exp {
    };
    struct kernel_maternfivehalves : limbo::defaults::kernel_maternfivehalves {
    };
    struct kernel_squared_exp_ard : limbo::defaults::kernel_squared_exp_ard {
    };
    struct mean_constant {
        BO_PARAM(double, constant, 0.);
    };
    struct acqui_ucb : limbo::defaults::acqui_ucb {
    };
    struct opt_nloptnograd {
        BO_PARAM(int, iterations, 8);
        BO_PARAM(double, fun_tolerance, -1);
        BO_PARAM(double, xrel_tolerance, -1);
    };
    struct opt_gridsearch : limbo::defaults::opt_gridsearch {
    };
    struct opt_rprop {
        BO_PARAM(int, iterations, 3);
        BO_PARAM(double, eps_stop, 0.);
    };
    struct opt_parallelrepeater {
        BO_PARAM(int, repeats, 1);
        BO_PARAM(double, epsilon, 0.01);
    };
    struct init_randomsampling {
        BO_PARAM(int, samples, 4);
    };
    struct stop_maxiterations {
        BO_PARAM(int, iterations, 2);
    };
};
static std::map<std::string, std::set<long>> seen;
static void tell(const char* kind, long v) { seen[kind].insert(v); }
static long evals;
template <int DOUT, int NC>
struct Fun {
    static constexpr size_t dim_in() { return 2; }
    static constexpr size_t dim_out() { return DOUT; }
    static constexpr size_t nb_constraints() { return NC; }
    V operator()(const V& x) const
    {
        if (++evals > 60)
            throw std::runtime_error("endless run");
        V y(DOUT + NC);
        for (int i = 0; i < y.size(); i++)
            y(i) = 1 + std::sin(3 * x(0) + i) * x(1);
        return y;
    }
};
template <int I>
struct Init {
    template <typename S, typename A, typename O>
    void operator()(const S& s, const A&, O& o) const
    {
        tell("init", I);
        for (int i = 0; i < I; i++)
            o.eval_and_add(s, V::Constant(2, 0.3 * (i + 1)));
    }
};
template <int KIND, int I>
struct Model {
    static const char* kind() { return KIND == 0 ? "model" : (KIND == 1 ? "cmodel" : "pmodel"); }
    std::vector<V> _samples, _observations;
    int dout;
    Model() {}
    Model(int, int d) : dout(d) {}
    void compute(const std::vector<V>& s, const std::vector<V>& o, bool = true)
    {
        tell(kind(), I);
        _samples = s;
        _observations = o;
        dout = o[0].size();
    }
    void add_sample(const V& s, const V& o)
    {
        tell(kind(), I);
        _samples.push_back(s);
        _observations.push_back(o);
    }
    int dim_in() const { return 2; }
    int dim_out() const { return dout; }
    int nb_samples() const { return _samples.size(); }
    void optimize_hyperparams() {}
    V mu(const V& x) const { return V::Constant(dout, x(0)); }
    double sigma(const V&) const { return 0.25; }
    std::tuple<V, double> query(const V& x) const { return std::make_tuple(mu(x), 0.25); }
    V max_observation() const { return _observations[0]; }
};
template <int I>
struct Acqui {
    template <typename M>
    Acqui(const M&, int) {}
    template <typename M, typename C>
    Acqui(const M&, const C&, int) {}
    template <typename A>
    opt::eval_t operator()(const V& x, const A&, bool) const
    {
        tell("acqui", I);
        return opt::no_grad(x.sum());
    }
    template <typename A>
    double operator()(const V& x, const A&) const // IMGPO
    {
        tell("acqui", I);
        return 10 + x.sum();
    }
};
template <int I>
struct Stat {
    template <typename B, typename A>
    void operator()(const B&, const A&) { tell("stats", I); }
};
template <int I>
struct Stop {
    template <typename B, typename A>
    bool operator()(const B& b, const A&) const
    {
        tell("stop", I);
        return b.current_iteration() >= (I == 1 ? 3 : 6);
    }
};
template <int I>
struct AcquiOpt {
    template <typename F>
    V operator()(const F& f, const V& x, bool) const
    {
        tell("acquiopt", I);
        opt::eval(f, x);
        return V::Constant(2, 0.1 * I + 0.01 * (evals % 7));
    }
};
using Stats3 = boost::fusion::vector<Stat<1>>;
using Stats4 = boost::fusion::vector<Stat<1>, Stat<2>>;
using Stop3 = boost::fusion::vector<Stop<1>>;
using Stop4 = boost::fusion::vector<Stop<1>, Stop<2>>;
namespace xbo = limbo::experimental::bayes_opt;
using GP0 = model::GP<Params>;

static long def_iterations, def_samples;
template <typename O>
static void common(O& o, std::map<std::string, bool>& def)
{
    def["init"] = (long)o.samples().size() - o.total_iterations() == 4 && seen["init"].empty();
    def["stop"] = seen["stop"].empty() && o.total_iterations() >= 2 && o.total_iterations() <= 5;
    bool f1 = boost::filesystem::exists(o.res_dir() + "/samples.dat"), f2 = boost::filesystem::exists(o.res_dir() + "/aggregated_observations.dat");
    def["stats"] = f1 && f2;
    if (f1 != f2)
        seen["stats"].insert(99);
    def["model"] = std::is_same<typename O::model_t, GP0>::value;
    def["acqui"] = std::is_same<typename O::acquisition_function_t, acqui::UCB<Params, GP0>>::value;
}
template <typename O>
static bool default_acquiopt() { return std::is_same<typename O::acqui_optimizer_t, opt::NLOptNoGrad<Params, nlopt::GN_DIRECT_L_RAND>>::value; }
template <typename O>
static void finish(const std::string& conf, O& o, std::map<std::string, bool>& def)
{
    if (boost::filesystem::exists(o.res_dir()))
        boost::filesystem::remove_all(o.res_dir());
    std::string s = "{", d = "{";
    for (auto k : {"init", "model", "cmodel", "pmodel", "acqui", "stats", "stop", "acquiopt"}) {
        s += (s.size() > 1 ? ",\"" : "\"") + std::string(k) + "\":" + J::list(std::vector<long>(seen[k].begin(), seen[k].end()));
        d += (d.size() > 1 ? ",\"" : "\"") + std::string(k) + "\":" + (def[k] ? "true" : "false");
    }
    J("run").raw("seen", s + "}").raw("def", d + "}").emit();
}
template <typename O, typename F, int FAMILY>
struct Run {
    static void go(const std::string& conf)
    {
        J("new").raw("opt", conf.substr(0, conf.find(' '))).raw("args", conf.substr(conf.find(' ') + 1)).emit();
        seen.clear();
        evals = 0;
        O o;
        try {
            o.optimize(F());
        }
        catch (std::exception& e) {
        }
        std::map<std::string, bool> def;
        common(o, def);
        extra(o, def, std::integral_constant<int, FAMILY>());
        finish(conf, o, def);
    }
    template <typename X>
    static void extra(X& o, std::map<std::string, bool>& def, std::integral_constant<int, 0>) { def["acquiopt"] = default_acquiopt<O>(); }
    template <typename X> // with a constraint model
    static void extra(X& o, std::map<std::string, bool>& def, std::integral_constant<int, 1>)
    {
        def["acquiopt"] = default_acquiopt<O>();
        def["cmodel"] = std::is_same<typename X::constraint_model_t, model::GP<Params, kernel::Exp<Params>, mean::Constant<Params>>>::value;
    }
    template <typename X> // ParEGO
    static void extra(X& o, std::map<std::string, bool>& def, std::integral_constant<int, 2>)
    {
        def["acquiopt"] = default_acquiopt<O>();
        def["pmodel"] = std::is_same<typename X::model_t, limbo::experimental::model::GPParego<Params, GP0>>::value;
    }
    template <typename X> // hyper-parameter shortcut
    static void extra(X& o, std::map<std::string, bool>& def, std::integral_constant<int, 3>) { def["acquiopt"] = default_acquiopt<O>(); }
    template <typename X> // no acquisition optimiser
    static void extra(X& o, std::map<std::string, bool>& def, std::integral_constant<int, 4>) {}
};
