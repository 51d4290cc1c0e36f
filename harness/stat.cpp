// Replays scripts in bayes_opt::BOptimizer with all the statistics enabled and records what is in the result directory.
#include "common.hpp"
#include "gpref.hpp"
#include <limbo/limbo.hpp>
#include <limbo/experimental/stat/hyper_volume.hpp>
#include <limbo/experimental/stat/pareto_front.hpp>
#include <map>
#include <set>
#include <memory>
#include <dirent.h>
#include <sys/stat.h>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;

struct Params {
    struct bayes_opt_bobase : defaults::bayes_opt_bobase {
        BO_DYN_PARAM(int, stats_enabled);
    };
    struct bayes_opt_boptimizer {
        BO_DYN_PARAM(int, hp_period);
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct stat_gp {
        BO_DYN_PARAM(int, bins);
    };
    struct stat_hyper_volume {
        BO_PARAM_ARRAY(double, ref, 3, 3, 3);
    };
    struct acqui_ucb {
        BO_PARAM(double, alpha, 0.5);
    };
    struct kernel : defaults::kernel {
        BO_PARAM(double, noise, 0.1);
        BO_PARAM(bool, optimize_noise, false);
    };
    struct kernel_squared_exp_ard : defaults::kernel_squared_exp_ard {
    };
    struct mean_constant {
        BO_PARAM(double, constant, 1);
    };
    struct opt_rprop : defaults::opt_rprop {
        BO_PARAM(int, iterations, 5);
    };
    struct opt_parallelrepeater : defaults::opt_parallelrepeater {
        BO_PARAM(int, repeats, 1);
    };
};
BO_DECLARE_DYN_PARAM(int, Params::bayes_opt_bobase, stats_enabled);
BO_DECLARE_DYN_PARAM(int, Params::bayes_opt_boptimizer, hp_period);
BO_DECLARE_DYN_PARAM(int, Params::stop_maxiterations, iterations);
BO_DECLARE_DYN_PARAM(int, Params::stat_gp, bins);

struct Out {
    bool ok;
    std::string why;
    std::vector<long> y;
    int at;
};
static std::vector<Out> outs;
static size_t next_out;
static long nx;
static int ninit, din, dout, tuned;
static std::string kind, home;
static bool on;
static const double unit = 192.;

static V point(long id)
{
    V v(3);
    v << id / 64., (id % 8) / 8., 0.5;
    return v.head(din);
}
static V value(const Out& o)
{
    V v(dout);
    for (int i = 0; i < dout; i++)
        v(i) = o.y[i];
    if (!o.ok)
        v(o.at - 1) = std::nan("");
    return v;
}
static long scaled(double x)
{
    double z = x * unit;
    if (!(std::fabs(z) < 1e9))
        return 999999999;
    long r = std::lround(z);
    return std::fabs(z - r) < 1e-3 * (1 + std::fabs(x) / 100) ? r : 999999998;
}
static long dot(const V& x)
{
    double s = 0;
    for (int i = 0; i < x.size(); i++)
        s += (i + 1) * x(i);
    return std::lround(unit * s);
}

struct Fun {
    static size_t dim_in() { return din; }
    static size_t dim_out() { return dout; }
    V operator()(const V& x) const;
};
struct Afun {
    using result_type = double;
    std::string a = "first";
    double operator()(const V& y) const
    {
        if (a == "first")
            return y(0);
        if (a == "sum")
            return y.sum();
        if (a == "neg")
            return -y(0);
        return y(y.size() - 1);
    }
};
struct Init {
    template <typename S, typename A, typename O>
    void operator()(const S& s, const A&, O& opt) const
    {
        for (int i = 0; i < ninit; i++)
            opt.eval_and_add(s, point(nx++));
    }
};

// ---- the mock model
struct HP {
    V p;
    V h_params() const { return p; }
};
struct Mock {
    int n = 0, din_ = 1;
    HP kern, mean;
    void upd()
    {
        kern.p = V(2);
        kern.p << n, tuned;
        mean.p = V(2);
        mean.p << n + 1, 2 * tuned;
    }
    Mock() { upd(); }
    Mock(int, int) { upd(); }
    void compute(const std::vector<V>& s, const std::vector<V>&, bool = true)
    {
        n = s.size();
        upd();
    }
    void add_sample(const V&, const V&)
    {
        n++;
        upd();
    }
    void optimize_hyperparams()
    {
        tuned++;
        upd();
        J("tune").emit();
    }
    int dim_in() const { return din; }
    int dim_out() const { return dout; }
    int nb_samples() const { return n; }
    V mu(const V& x) const
    {
        V r(dout);
        for (int k = 0; k < dout; k++)
            r(k) = 16 * n + (k + 1) + dot(x);
        return r;
    }
    double sigma(const V& x) const { return 3 * n + 2 + dot(x); }
    std::tuple<V, double> query(const V& x) const { return std::make_tuple(mu(x), sigma(x)); }
    const HP& kernel_function() const { return kern; }
    const HP& mean_function() const { return mean; }
    double get_log_lik() const { return 7 * n - tuned - 50; }
    double compute_log_lik() { return 7 * n - tuned - 50; }
};
struct MockAcqui {
    const Mock& m;
    int it;
    MockAcqui(const Mock& mm, int i) : m(mm), it(i) {}
    size_t dim_in() const { return din; }
    size_t dim_out() const { return dout; }
    template <typename A>
    opt::eval_t operator()(const V& v, const A& afun, bool) const { return opt::no_grad(8 * it + afun(m.mu(v))); }
};
// ---- the real model
using GPBase = model::GP<Params, kernel::SquaredExpARD<Params>, mean::Constant<Params>, model::gp::KernelLFOpt<Params>>;
struct Real : GPBase {
    using GPBase::GPBase;
    void optimize_hyperparams()
    {
        tuned++;
        GPBase::optimize_hyperparams();
        J("tune").emit();
    }
};
struct AcquiOpt {
    template <typename F>
    V operator()(const F&, const V&, bool) const
    {
        extern void log_propose();
        log_propose();
        return point(nx++);
    }
};

// ---- files
static const std::vector<std::string> names = {"samples", "observations", "aggregated_observations", "best_samples", "best_observations",
    "best_aggregated_observations", "gp_kernel_hparams", "gp_mean_hparams", "gp_likelihood", "gp_acquisitions", "gp_prediction_differences", "hypervolume"};
static std::string resdir;
static std::map<std::string, size_t> seen;
using Lines = std::vector<std::vector<double>>;
static Lines read(const std::string& p)
{
    Lines r;
    std::ifstream f(p);
    std::string l;
    while (std::getline(f, l)) {
        if (!l.empty() && l[0] == '#')
            continue;
        std::istringstream is(l);
        std::vector<double> v;
        std::string t;
        while (is >> t) {
            char* e;
            double x = strtod(t.c_str(), &e);
            v.push_back(*e ? 1e12 : x);
        }
        r.push_back(v);
    }
    return r;
}
static std::vector<long> ints(const std::vector<double>& v, bool it = true)
{
    std::vector<long> r;
    for (size_t i = 0; i < v.size(); i++)
        r.push_back(it && i == 0 ? (std::fabs(v[0]) < 1e6 && v[0] == std::floor(v[0]) ? long(v[0]) : 999999997) : scaled(v[i]));
    return r;
}
static std::string jl(const Lines& s, bool it = true)
{
    std::vector<std::string> r;
    for (auto& v : s)
        r.push_back(J::list(ints(v, it)));
    return J::list(r);
}
static std::map<std::string, Lines> files()
{
    std::map<std::string, Lines> m;
    for (auto& n : names)
        m[n] = on ? read(resdir + "/" + n + ".dat") : Lines();
    return m;
}
static std::vector<std::string> listdir(const std::string& p)
{
    std::set<std::string> r;
    if (DIR* d = opendir(p.c_str())) {
        while (dirent* e = readdir(d))
            if (e->d_name[0] != '.')
                r.insert(e->d_name);
        closedir(d);
    }
    return std::vector<std::string>(r.begin(), r.end());
}
static void dir(J& j)
{
    std::vector<std::string> q;
    if (on)
        for (auto& n : listdir(resdir))
            q.push_back(J::str(n.size() > 4 && n.substr(n.size() - 4) == ".dat" ? n.substr(0, n.size() - 4) : n));
    j.raw("dir", J::list(q)).i("top", listdir(".").size());
}
static void lens(J& j)
{
    std::string s = "{";
    for (auto& f : files())
        s += (s.size() > 1 ? "," : "") + J::str(f.first) + ":" + std::to_string(f.second.size());
    j.raw("n", s + "}");
}
void log_propose()
{
    J j("propose");
    lens(j);
    j.emit();
}
V Fun::operator()(const V& x) const
{
    if (next_out >= outs.size()) {
        J("overrun").emit();
        _exit(0);
    }
    Out o = outs[next_out++];
    J j("eval");
    lens(j);
    j.i("x", std::lround(x(0) * 64)).b("ok", o.ok).li("y", o.y).emit();
    if (o.why == "throw")
        throw std::runtime_error("scripted failure");
    return value(o);
}

static std::ostringstream console;

// numbers of samples for which a reference model explains the files of this iteration
template <typename BO, typename A>
std::string versions(const BO&, const A&, const Mock&, std::map<std::string, Lines>&, const Lines&) { return "{}"; }
static bool near(double a, gpref::R b, double tol = 2e-5) { return std::isfinite(a) && fabsl(a - b) <= tol * (1 + fabsl(b)); }
template <typename BO, typename A>
std::string versions(const BO& bo, const A& afun, const Real& m, std::map<std::string, Lines>& nw, const Lines& grid)
{
    std::map<std::string, std::vector<long>> ver;
    auto last = [&](const std::string& f) { return nw[f].size() == 1 ? nw[f][0] : std::vector<double>(); };
    auto all = [&](const std::string& f) {
        for (long n = 0; n <= (long)bo.samples().size(); n++)
            ver[f].push_back(n);
    };
    ver["gp_kernel_hparams"];
    ver["gp_mean_hparams"];
    auto same = [&](const std::string& f, const V& p) {
        auto v = last(f);
        bool ok = (long)v.size() == 1 + p.size();
        for (int i = 0; ok && i < p.size(); i++)
            ok = near(v[1 + i], p(i));
        if (ok)
            all(f);
    };
    same("gp_kernel_hparams", m.kernel_function().h_params());
    same("gp_mean_hparams", m.mean_function().h_params());
    for (auto f : {"gp_likelihood", "gp_acquisitions", "gp_prediction_differences", "gp"})
        ver[f];
    gpref::GP g;
    g.kern = gpref::SE;
    V kp = m.kernel_function().h_params();
    g.khp = gpref::vr(kp);
    g.noise = 0.1L;
    g.dout = dout;
    g.mean = [](const gpref::VR&) { return gpref::VR(dout, 1.L); };
    V x = bo.samples().back();
    auto vec = [](const gpref::VR& v) {
        V r(v.size());
        for (size_t i = 0; i < v.size(); i++)
            r(i) = v[i];
        return r;
    };
    for (long n = 0; n <= (long)bo.samples().size(); n++) {
        if (n > 0) {
            g.X.push_back(gpref::vr(bo.samples()[n - 1]));
            g.Y.push_back(gpref::vr(bo.observations()[n - 1]));
        }
        auto p = g.predict(gpref::vr(x));
        double a = afun(vec(p.mu)), acq = a + 0.5 * std::sqrt((double)p.var), o = afun(bo.observations().back());
        auto v = last("gp_likelihood");
        if (v.size() == 2 && near(v[1], g.lik()))
            ver["gp_likelihood"].push_back(n);
        v = last("gp_acquisitions");
        if (v.size() == 4 && near(v[1], a) && near(v[2], p.var) && near(v[3], acq))
            ver["gp_acquisitions"].push_back(n);
        v = last("gp_prediction_differences");
        if (v.size() == 4 && near(v[1], a) && near(v[2], o) && near(v[3], std::fabs(a - o)))
            ver["gp_prediction_differences"].push_back(n);
        bool ok = !grid.empty();
        for (auto& r : grid) {
            if (!ok || (int)r.size() != din + dout + 2) {
                ok = false;
                break;
            }
            gpref::VR q(din);
            for (int i = 0; i < din; i++) // the file has six digits only
                q[i] = std::round(r[i] * unit) / unit;
            auto pr = g.predict(q);
            for (int k = 0; k < dout; k++)
                ok = ok && near(r[din + k], pr.mu[k]);
            ok = ok && near(r[din + dout], pr.var) && near(r[din + dout + 1], afun(vec(pr.mu)) + 0.5 * std::sqrt((double)pr.var));
        }
        if (ok)
            ver["gp"].push_back(n);
    }
    std::string s = "{";
    for (auto& k : ver)
        s += (s.size() > 1 ? "," : "") + J::str(k.first) + ":" + J::list(k.second);
    return s + "}";
}

struct Record {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A& afun)
    {
        J j("stats");
        j.i("cur", bo.current_iteration()).i("tot", bo.total_iterations());
        std::string c = console.str();
        console.str("");
        for (auto& ch : c)
            if (!(isdigit(ch) || ch == '-' || ch == '.' || ch == '+'))
                ch = ch == 'e' ? 'e' : ' ';
        std::istringstream is(c);
        std::vector<double> cv;
        std::string t;
        while (is >> t) {
            char* e;
            double x = strtod(t.c_str(), &e);
            if (e != t.c_str() && !*e)
                cv.push_back(x);
        }
        bool haveconsole = kind != "multi";
        if (on && !haveconsole) { // this list of statistics has no console: the record is made here
            cv = {double(bo.total_iterations())};
            for (int i = 0; i < din; i++)
                cv.push_back(bo.samples().back()(i));
            cv.push_back(afun(bo.observations().back()));
            cv.push_back(afun(bo.best_observation(afun)));
        }
        j.li("con", ints(cv, false));
        auto f = files();
        std::map<std::string, Lines> nw;
        std::string s = "{", num = std::to_string(bo.total_iterations());
        for (auto& k : f) {
            for (size_t i = seen[k.first]; i < k.second.size(); i++)
                nw[k.first].push_back(k.second[i]);
            seen[k.first] = k.second.size();
            Lines show = nw[k.first];
            if (kind == "gp" && k.first.substr(0, 3) == "gp_")
                for (auto& v : show)
                    v.resize(1);
            s += (s.size() > 1 ? "," : "") + J::str(k.first) + ":" + jl(show);
        }
        j.raw("new", s + "}");
        Lines grid = on ? read(resdir + "/gp_" + num + ".dat") : Lines(), pts = grid;
        j.raw("ver", on ? versions(bo, afun, bo.model(), nw, grid) : "{}");
        if (kind == "gp")
            for (auto& r : pts)
                r.resize(din);
        j.raw("grid", jl(pts, false));
        j.raw("front", jl(on ? read(resdir + "/pareto_front_" + std::to_string(bo.current_iteration()) + ".dat") : Lines(), false));
        dir(j);
        lens(j);
        j.emit();
    }
};

using Cmds = std::vector<std::vector<std::string>>;
static Out outcome(const std::vector<std::string>& c)
{
    Out o;
    o.ok = c[1] == "1";
    o.why = c[2];
    o.at = std::stoi(c[3]);
    for (size_t i = 4; i < c.size(); i++)
        o.y.push_back(std::stol(c[i]));
    return o;
}
template <typename BO>
void play(const Cmds& cmds)
{
    BO bo;
    resdir = bo.res_dir();
    seen.clear();
    console.str("");
    for (auto& c : cmds) {
        if (c[0] == "set") {
            Params::stop_maxiterations::set_iterations(std::stoi(c[1]));
            Params::bayes_opt_boptimizer::set_hp_period(std::stoi(c[2]));
            J("set").i("iters", std::stoi(c[1])).i("hp", std::stoi(c[2])).emit();
        }
        else if (c[0] == "add") {
            Out o = outcome(c);
            long x = nx++;
            try {
                bo.add_new_sample(point(x), value(o));
            }
            catch (const EvaluationError&) {
            }
            J j("add");
            dir(j);
            lens(j);
            j.i("x", x).b("ok", o.ok).li("y", o.y).emit();
        }
        else if (c[0] == "start") {
            Afun a;
            a.a = c[2];
            J("start").b("reset", c[1] == "1").t("afun", c[2]).emit();
            std::string r = "return";
            try {
                bo.optimize(Fun(), a, c[1] == "1");
            }
            catch (const EvaluationError&) {
                r = "raise";
            }
            catch (const std::runtime_error&) {
                r = "raise";
            }
            J j(r);
            dir(j);
            lens(j);
            j.emit();
        }
    }
}
using P = Params;
using Fwd = boost::fusion::vector<stat::Samples<P>, stat::Observations<P>, stat::AggregatedObservations<P>, stat::BestSamples<P>, stat::BestObservations<P>,
    stat::BestAggregatedObservations<P>, stat::GPKernelHParams<P>, stat::GPMeanHParams<P>, stat::GPLikelihood<P>, stat::GPAcquisitions<P>,
    stat::GPPredictionDifferences<P>, stat::GP<P>, stat::ConsoleSummary<P>, Record>;
using Rev = boost::fusion::vector<stat::ConsoleSummary<P>, stat::GP<P>, stat::GPPredictionDifferences<P>, stat::GPAcquisitions<P>, stat::GPLikelihood<P>,
    stat::GPMeanHParams<P>, stat::GPKernelHParams<P>, stat::BestAggregatedObservations<P>, stat::BestObservations<P>, stat::BestSamples<P>,
    stat::AggregatedObservations<P>, stat::Observations<P>, stat::Samples<P>, Record>;
using Multi = boost::fusion::vector<experimental::stat::ParetoFront<P>, stat::Samples<P>, experimental::stat::HyperVolume<P>, Record>;
template <typename S>
using BO = bayes_opt::BOptimizer<Params, modelfun<Mock>, initfun<Init>, acquifun<MockAcqui>, acquiopt<AcquiOpt>, statsfun<S>>;
using BOReal = bayes_opt::BOptimizer<Params, modelfun<Real>, initfun<Init>, acquifun<acqui::UCB<Params, Real>>, acquiopt<AcquiOpt>, statsfun<Fwd>>;

int main()
{
    std::vector<std::string> t, cfg;
    Cmds cur;
    char buf[4096];
    home = getcwd(buf, sizeof buf);
    mbv::out();
    int k = 0;
    std::cout.rdbuf(console.rdbuf());
    auto flush = [&]() {
        if (cfg.empty())
            return;
        // new kind on din dout bins iters hp ninit json
        outs.clear();
        next_out = 0;
        nx = 1;
        tuned = 0;
        kind = cfg[1];
        on = cfg[2] == "1";
        din = std::stoi(cfg[3]);
        dout = std::stoi(cfg[4]);
        Params::stat_gp::set_bins(std::stoi(cfg[5]));
        Params::stop_maxiterations::set_iterations(std::stoi(cfg[6]));
        Params::bayes_opt_boptimizer::set_hp_period(std::stoi(cfg[7]));
        Params::bayes_opt_bobase::set_stats_enabled(on);
        ninit = std::stoi(cfg[8]);
        J("new").raw("cfg", cfg[9]).emit();
        Cmds cmds;
        for (auto& c : cur)
            if (c[0] == "eval")
                outs.push_back(outcome(c));
            else
                cmds.push_back(c);
        for (int q = 0; q < 3; q++) { // a run which is longer than the specification must be visible as such
            Out o;
            o.ok = true;
            o.at = 1;
            o.y = std::vector<long>(dout, 0);
            outs.push_back(o);
        }
        std::string d = home + "/t" + std::to_string(k++); // each trace in a directory of its own
        if (mkdir(d.c_str(), 0755) || chdir(d.c_str()))
            mbv::die("cannot make " + d);
        if (kind == "fwd")
            play<BO<Fwd>>(cmds);
        else if (kind == "rev")
            play<BO<Rev>>(cmds);
        else if (kind == "multi")
            play<BO<Multi>>(cmds);
        else
            play<BOReal>(cmds);
        if (chdir(home.c_str()))
            mbv::die("cannot leave " + d);
        cfg.clear();
        cur.clear();
    };
    while (mbv::next_line(t)) {
        if (t[0] == "new") {
            flush();
            cfg = t;
        }
        else
            cur.push_back(t);
    }
    flush();
    return 0;
}
