// Replays scripts in bayes_opt::BOptimizer with user-defined components and records what they observe.
#include "common.hpp"
#include <set>
#include <limbo/limbo.hpp>
#include <map>
#include <memory>
#include <limits>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;

struct Params {
    struct bayes_opt_bobase : defaults::bayes_opt_bobase {
        BO_PARAM(int, stats_enabled, false);
    };
    struct bayes_opt_boptimizer {
        BO_DYN_PARAM(int, hp_period);
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct stop_maxpredictedvalue {
        BO_DYN_PARAM(double, ratio);
    };
};
BO_DECLARE_DYN_PARAM(int, Params::bayes_opt_boptimizer, hp_period);
BO_DECLARE_DYN_PARAM(int, Params::stop_maxiterations, iterations);
BO_DECLARE_DYN_PARAM(double, Params::stop_maxpredictedvalue, ratio);

// ---- state of the run, shared by the components
struct Out {
    bool ok;
    std::string why;
    std::vector<long> y;
    int at;
};
static std::vector<Out> outs; // outcomes of the evaluations, in order
static size_t next_out;
static long nx; // next point
static int ninit, dout, goal, total_max;
static std::vector<long> pred;
static std::string want;
static std::string acqui_af;
static V acqui_x;
static bool acqui_g;
static std::set<std::pair<double, double>> starts;

static V point(long id)
{
    V v(2);
    v << id / 1024., 0.25;
    return v;
}
static long pid(const V& v)
{
    if (v.size() != 2 || v(1) != 0.25)
        return -1;
    return std::lround(v(0) * 1024.);
}
static std::vector<long> ints(const V& v)
{
    std::vector<long> r;
    for (int i = 0; i < v.size(); i++)
        r.push_back(std::isfinite(v(i)) ? std::lround(v(i)) : -99999);
    return r;
}
static V value(const Out& o)
{
    V v(dout);
    for (int i = 0; i < dout; i++)
        v(i) = o.y[i];
    if (!o.ok) {
        double inf = std::numeric_limits<double>::infinity();
        v(o.at - 1) = o.why == "nan" ? std::nan("") : (o.why == "inf" ? inf : -inf);
    }
    return v;
}
static std::string jxs(const std::vector<V>& s)
{
    std::vector<long> r;
    for (auto& x : s)
        r.push_back(pid(x));
    return J::list(r);
}
static std::string jys(const std::vector<V>& s)
{
    std::vector<std::string> r;
    for (auto& x : s)
        r.push_back(J::list(ints(x)));
    return J::list(r);
}

struct Fun {
    static size_t dim_in() { return 2; }
    static size_t dim_out() { return dout; }
    V operator()(const V& x) const
    {
        if (next_out >= outs.size()) { // the run goes on longer than the specification: log and give up
            J("overrun").emit();
            fflush(mbv::out());
            _exit(0);
        }
        Out o = outs[next_out++];
        J("eval").i("x", pid(x)).b("ok", o.ok).li("y", o.y).t("why", o.why).emit();
        want = o.ok ? "" : (o.why == "throw" ? "runtime" : "evaluation");
        if (o.why == "throw")
            throw std::runtime_error("scripted failure");
        return value(o);
    }
};
struct Afun {
    using result_type = double;
    std::string a = "first";
    double operator()(const V& y) const
    {
        if (a == "first")
            return y(0);
        if (a == "sum")
            return y.sum();
        if (a == "neg")
            return -y(0);
        return y(y.size() - 1);
    }
};

struct Init {
    template <typename S, typename A, typename O>
    void operator()(const S& s, const A&, O& opt) const
    {
        for (int i = 0; i < ninit; i++)
            opt.eval_and_add(s, point(nx++));
    }
};
struct Model {
    std::vector<V> xs, ys;
    int din = -1, dou = -1;
    Model() {}
    Model(int di, int d) : din(di), dou(d) {}
    void compute(const std::vector<V>& s, const std::vector<V>& o, bool = true)
    {
        xs = s;
        ys = o;
        din = 2;
        dou = dout;
    }
    void add_sample(const V& s, const V& o)
    {
        xs.push_back(s);
        ys.push_back(o);
    }
    void optimize_hyperparams() { J("tune").raw("mx", jxs(xs)).emit(); }
    int dim_in() const { return 2; }
    int dim_out() const { return dout; }
    int nb_samples() const { return xs.size(); }
    const std::vector<V>& samples() const { return xs; }
    V mu(const V& v) const // the best prediction is at the "best" point only
    {
        V r(dout);
        for (int i = 0; i < dout; i++)
            r(i) = pred[i];
        return r;
    }
    double sigma(const V&) const { return 1.; }
    std::tuple<V, double> query(const V& v) const { return std::make_tuple(mu(v), 1.); }
};
static bool acqui_called;
static int acqui_it;
static const Model* acqui_model;
static double x_value(const V& v) { return 3 * v(0) - v(1); }
struct Acqui {
    const Model& m;
    int it;
    Acqui(const Model& mm, int i) : m(mm), it(i) {}
    size_t dim_in() const { return 2; }
    size_t dim_out() const { return dout; }
    template <typename A>
    opt::eval_t operator()(const V& v, const A& afun, bool g) const
    {
        acqui_called = true;
        acqui_it = it;
        acqui_model = &m;
        acqui_af = afun.a;
        acqui_x = v;
        acqui_g = g;
        return g ? opt::eval_t{x_value(v), V::Constant(2, v(1))} : opt::no_grad(x_value(v));
    }
};
struct AcquiOpt {
    template <typename F>
    V operator()(const F& f, const V& init, bool bounded) const
    {
        acqui_called = false;
        f(init, false);
        if (!acqui_called) // used by the predicted-value criterion
            return init;
        // the objective is the acquisition function with the aggregator of the run: another point, with and without gradient
        bool same = true;
        for (int k = 0; k < 2; k++) {
            V probe = V::Constant(2, 0.125 + (nx % 7) / 16.);
            probe(1) += 0.25;
            opt::eval_t r = f(probe, k == 1);
            same = same && acqui_x == probe && acqui_g == (k == 1) && std::get<0>(r) == x_value(probe)
                && bool(std::get<1>(r)) == (k == 1) && (k == 0 || *std::get<1>(r) == V::Constant(2, probe(1)));
        }
        bool in = bounded && init.size() == 2 && init.minCoeff() >= 0 && init.maxCoeff() <= 1;
        bool fresh = starts.insert(std::make_pair(init(0), init(1))).second;
        J("propose").t("af", acqui_af).b("same", same).t("start", !in ? "out" : fresh ? "fresh" : "old").i("it", acqui_it).raw("mx", jxs(acqui_model->xs)).raw("my", jys(acqui_model->ys)).emit();
        return point(nx++);
    }
};
struct Stat {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A&)
    {
        J("stats").raw("xs", jxs(bo.samples())).raw("ys", jys(bo.observations())).i("cur", bo.current_iteration()).i("tot", bo.total_iterations()).emit();
    }
};
struct Goal {
    template <typename BO, typename A>
    bool operator()(const BO& bo, const A& afun) const
    {
        return !bo.observations().empty() && afun(bo.best_observation(afun)) >= goal;
    }
};
struct Total {
    template <typename BO, typename A>
    bool operator()(const BO& bo, const A&) const { return bo.total_iterations() >= total_max; }
};

template <typename BO>
std::string bests(const BO& bo, bool sample)
{
    std::string r = "{";
    for (std::string a : {"first", "sum", "neg", "last"}) {
        Afun f;
        f.a = a;
        r += (r.size() > 1 ? "," : "") + J::str(a) + ":";
        if (bo.observations().empty())
            r += "0";
        else
            r += sample ? std::to_string(pid(bo.best_sample(f))) : J::list(ints(bo.best_observation(f)));
    }
    return r + "}";
}

using Cmds = std::vector<std::vector<std::string>>;

template <typename BO>
void report(J j, const BO& bo)
{
    j.raw("xs", jxs(bo.samples())).raw("ys", jys(bo.observations())).i("cur", bo.current_iteration()).i("tot", bo.total_iterations());
    j.raw("bx", bests(bo, true)).raw("by", bests(bo, false)).raw("mx", jxs(bo.model().xs)).raw("my", jys(bo.model().ys));
    j.emit();
}

template <typename BO>
void play(const Cmds& cmds)
{
    BO bo;
    for (auto& c : cmds) {
        if (c[0] == "set") {
            Params::stop_maxiterations::set_iterations(std::stoi(c[1]));
            Params::bayes_opt_boptimizer::set_hp_period(std::stoi(c[2]));
            J("set").i("iters", std::stoi(c[1])).i("hp", std::stoi(c[2])).emit();
        }
        else if (c[0] == "add") {
            Out o;
            o.ok = c[1] == "1";
            o.why = c[2];
            o.at = std::stoi(c[3]);
            for (size_t i = 4; i < c.size(); i++)
                o.y.push_back(std::stol(c[i]));
            bool raised = false;
            long x = nx++;
            try {
                bo.add_new_sample(point(x), value(o));
            }
            catch (const EvaluationError&) {
                raised = true;
            }
            J("add").i("x", x).b("ok", o.ok).li("y", o.y).b("raised", raised).raw("xs", jxs(bo.samples())).raw("ys", jys(bo.observations())).emit();
        }
        else if (c[0] == "start") {
            Afun a;
            a.a = c[2];
            J("start").b("reset", c[1] == "1").t("afun", c[2]).emit();
            std::string sort;
            want = "";
            try {
                if (c[1] == "1" && c[3] == "1")
                    bo.optimize(Fun(), a); // default value of reset
                else
                    bo.optimize(Fun(), a, c[1] == "1");
            }
            catch (const EvaluationError&) {
                sort = "evaluation";
            }
            catch (const std::runtime_error&) {
                sort = "runtime";
            }
            if (sort.empty())
                report(J("return"), bo);
            else
                report(J("raise").t("sort", sort).t("want", want), bo);
        }
    }
}

using Args0 = boost::fusion::vector<stop::MaxIterations<Params>>;
using Args1 = boost::fusion::vector<stop::MaxIterations<Params>, Goal, Total, stop::MaxPredictedValue<Params>>;
using Args2 = boost::fusion::vector<stop::MaxPredictedValue<Params, AcquiOpt>, Total, Goal, stop::MaxIterations<Params>>;
using Args3 = boost::fusion::vector<Goal, Total>;
template <typename S>
using BO = bayes_opt::BOptimizer<Params, modelfun<Model>, initfun<Init>, acquifun<Acqui>, acquiopt<AcquiOpt>, statsfun<Stat>, stopcrit<S>>;

int main()
{
    std::vector<std::string> t;
    std::vector<std::pair<std::string, Cmds>> all;
    Cmds cur;
    std::vector<std::string> cfg;
    auto flush = [&]() {
        if (cfg.empty())
            return;
        // cfg: variant iters hp ninit goal total rn rd dout json pred...
        outs.clear();
        next_out = 0;
        nx = 1;
        int variant = std::stoi(cfg[1]);
        Params::stop_maxiterations::set_iterations(std::stoi(cfg[2]));
        Params::bayes_opt_boptimizer::set_hp_period(std::stoi(cfg[3]));
        ninit = std::stoi(cfg[4]);
        goal = std::stoi(cfg[5]);
        total_max = std::stoi(cfg[6]);
        Params::stop_maxpredictedvalue::set_ratio(std::stoi(cfg[7]) / double(std::stoi(cfg[8])));
        dout = std::stoi(cfg[9]);
        pred.clear();
        for (size_t i = 11; i < cfg.size(); i++)
            pred.push_back(std::stol(cfg[i]));
        J("new").raw("cfg", cfg[10]).emit();
        Cmds cmds;
        for (auto& c : cur) {
            if (c[0] == "eval") {
                Out o;
                o.ok = c[1] == "1";
                o.why = c[2];
                o.at = std::stoi(c[3]);
                for (size_t i = 4; i < c.size(); i++)
                    o.y.push_back(std::stol(c[i]));
                outs.push_back(o);
            }
            else
                cmds.push_back(c);
        }
        // spare outcomes: a run which is longer than the specification must be visible as such
        for (int k = 0; k < 3; k++) {
            Out o;
            o.ok = true;
            o.why = "-";
            o.at = 1;
            o.y = std::vector<long>(dout, 0);
            outs.push_back(o);
        }
        if (variant == 0)
            play<BO<Args0>>(cmds);
        else if (variant == 1)
            play<BO<Args1>>(cmds);
        else if (variant == 2)
            play<BO<Args2>>(cmds);
        else
            play<BO<Args3>>(cmds);
        cfg.clear();
        cur.clear();
    };
    while (mbv::next_line(t)) {
        if (t[0] == "new") {
            flush();
            cfg = t;
        }
        else
            cur.push_back(t);
    }
    flush();
    return 0;
}
