// BoMulti (models per objective, Pareto data) and Ehvi with mock models and a recording inner optimiser.
#include "common.hpp"
#include <limbo/limbo.hpp>
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/experimental/bayes_opt/bo_multi.hpp>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;
struct Params {
    struct bayes_opt_bobase : defaults::bayes_opt_bobase {
        BO_PARAM(int, stats_enabled, false);
    };
    struct bayes_opt_ehvi {
        BO_DYN_PARAM(double, x_ref);
        BO_DYN_PARAM(double, y_ref);
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct kernel : defaults::kernel {
        BO_PARAM(double, noise, 0.01);
    };
    struct kernel_exp : defaults::kernel_exp {
    };
};
BO_DECLARE_DYN_PARAM(double, Params::bayes_opt_ehvi, x_ref);
BO_DECLARE_DYN_PARAM(double, Params::bayes_opt_ehvi, y_ref);
BO_DECLARE_DYN_PARAM(int, Params::stop_maxiterations, iterations);
struct Out {
    bool ok;
    std::vector<long> y;
};
static std::vector<Out> outs;
static size_t next_out;
static long nx;
static int ninit, lazy;
static V point(long id)
{
    V v(2);
    v << id / 4096., 0.25;
    return v;
}
static long pid(const V& v) { return v.size() != 2 || v(1) != 0.25 ? -1 : std::lround(v(0) * 4096.); }
static std::vector<long> ilist(const V& v)
{
    std::vector<long> r;
    for (int i = 0; i < v.size(); i++)
        r.push_back(std::isfinite(v(i)) ? std::lround(v(i)) : -99999);
    return r;
}
static std::string xs(const std::vector<V>& s)
{
    std::vector<long> r;
    for (auto& x : s)
        r.push_back(pid(x));
    return J::list(r);
}
static std::string ys(const std::vector<V>& s)
{
    std::vector<std::string> r;
    for (auto& x : s)
        r.push_back(J::list(ilist(x)));
    return J::list(r);
}
static V vec(const std::vector<long>& t)
{
    V v(t.size());
    for (size_t i = 0; i < t.size(); i++)
        v(i) = t[i];
    return v;
}
struct Fun {
    static constexpr int dim_in() { return 2; }
    static constexpr int dim_out() { return 2; }
    V operator()(const V& x) const
    {
        if (next_out >= outs.size()) {
            J("overrun").emit();
            _exit(0);
        }
        Out o = outs[next_out++];
        J("eval").i("x", pid(x)).b("ok", o.ok).li("y", o.y).emit();
        nx += 6;
        if (!o.ok && next_out % 2)
            throw std::runtime_error("scripted");
        V v = vec(o.y);
        if (!o.ok)
            v(0) = std::nan("");
        return v;
    }
};
struct Mock {
    std::vector<V> s, o;
    Mock() {}
    Mock(int, int) {}
    void compute(const std::vector<V>& a, const std::vector<V>& b, bool = true)
    {
        s = a;
        o = b;
    }
    long col(size_t i) const { return i < o.size() && o[i].size() == 1 ? std::lround(o[i](0)) : 1000; }
    long bad() const { return s.size() == o.size() ? 0 : 1; }
    V mu(const V& v) const
    {
        long c = bad();
        for (size_t i = 0; i < o.size(); i++)
            c += col(i);
        return V::Constant(1, (pid(v) + c) % 3);
    }
    double sigma(const V& v) const
    {
        long c = bad();
        for (size_t i = 0; i < o.size(); i++)
            c += (i + 1) * col(i);
        double sd = 1 + (pid(v) + c) % 2;
        return sd * sd;
    }
    std::tuple<V, double> query(const V& v) const { return std::make_tuple(mu(v), sigma(v)); }
    int dim_in() const { return 2; }
    int dim_out() const { return 1; }
    int nb_samples() const { return s.size(); }
    const std::vector<V>& samples() const { return s; }
    Eigen::MatrixXd observations_matrix() const
    {
        Eigen::MatrixXd m(o.size(), 1);
        for (size_t i = 0; i < o.size(); i++)
            m(i, 0) = o[i].size() == 1 ? o[i](0) : -7777;
        return m;
    }
};
// looks at three of six candidates and returns the best of them (or, for some runs, the first)
struct Opt {
    template <typename F>
    V operator()(const F& f, const V& init, bool) const
    {
        long st = pid(init), best = -1;
        double bv = 0;
        std::vector<long> cs, vs;
        for (int k = 0; k < 3; k++) {
            long c = nx + (st + 2 * k) % 6;
            double v = opt::eval(f, point(c));
            cs.push_back(c);
            vs.push_back(std::isfinite(v) ? std::lround(v * 10000) : -1);
            if (best < 0 || (v > bv && st % lazy)) {
                best = c;
                bv = v;
            }
        }
        J("inner").i("st", st).li("cs", cs).li("vs", vs).i("ret", best).emit();
        return point(best);
    }
};
struct Init {
    template <typename S, typename A, typename O>
    void operator()(const S& seval, const A&, O& opt) const
    {
        for (int i = 0; i < ninit; i++)
            opt.eval_and_add(seval, point(nx));
    }
};
struct Stat {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A&) { J("stat").i("it", bo.current_iteration()).i("tot", bo.total_iterations()).emit(); }
};
template <typename B>
static void seen(const B& bo)
{
    std::vector<std::string> mods, fr;
    for (auto& m : bo.models()) {
        std::vector<long> c;
        auto o = m.observations_matrix();
        for (int i = 0; i < o.rows(); i++)
            c.push_back(o.cols() == 1 ? std::lround(o(i, 0)) : -9999);
        mods.push_back("{\"xs\":" + xs(m.samples()) + ",\"ys\":" + J::list(c) + "}");
    }
    for (auto& p : bo.pareto_data())
        fr.push_back("[" + std::to_string(pid(std::get<0>(p))) + "," + J::list(ilist(std::get<1>(p))) + "]");
    J("seen").raw("xs", xs(bo.samples())).raw("ys", ys(bo.observations())).raw("mods", J::list(mods)).raw("front", J::list(fr)).emit();
}
using GP = model::GP<Params, kernel::Exp<Params>, mean::Data<Params>>;
using Multi = experimental::bayes_opt::BoMulti<Params, modelfun<GP>, statsfun<boost::fusion::vector<Stat>>>;
using BO = experimental::bayes_opt::Ehvi<Params, modelfun<Mock>, acquiopt<Opt>, initfun<Init>, statsfun<boost::fusion::vector<Stat>>,
    stopcrit<boost::fusion::vector<stop::MaxIterations<Params>>>>;
int main()
{
    std::vector<std::string> t;
    std::vector<std::vector<std::string>> block;
    auto flush = [&]() {
        if (block.empty())
            return;
        auto& n = block[0]; // new mode ninit iters rx ry lazy json
        ninit = std::stoi(n[2]);
        Params::stop_maxiterations::set_iterations(std::stoi(n[3]));
        Params::bayes_opt_ehvi::set_x_ref(std::stoi(n[4]));
        Params::bayes_opt_ehvi::set_y_ref(std::stoi(n[5]));
        lazy = std::stoi(n[6]);
        J("new").raw("cfg", n[7]).emit();
        auto nums = [](const std::vector<std::string>& b, size_t a) {
            std::vector<long> r;
            for (size_t i = a; i < b.size(); i++)
                r.push_back(std::stol(b[i]));
            return r;
        };
        if (n[1] == "multi") {
            Multi bo;
            for (size_t k = 1; k < block.size(); k++) {
                auto& b = block[k];
                if (b[0] == "add") { // add x ok y..
                    bool ok = b[2] == "1", raised = false;
                    auto y = nums(b, 3);
                    V v = vec(y);
                    if (!ok)
                        v(v.size() - 1) = k % 2 ? std::nan("") : std::numeric_limits<double>::infinity();
                    try {
                        bo.add_new_sample(point(std::stol(b[1])), v);
                    }
                    catch (...) {
                        raised = true;
                    }
                    J("add").i("x", std::stol(b[1])).b("ok", ok).b("raised", raised).li("y", y).emit();
                }
                else {
                    J(b[0]).emit();
                    if (b[0] == "models")
                        bo.update_pareto_model<2>();
                    else
                        bo.update_pareto_data();
                }
                seen(bo);
            }
        }
        else {
            outs.clear();
            next_out = 0;
            nx = 1;
            for (auto& b : block)
                if (b[0] == "eval") {
                    Out o;
                    o.ok = b[1] == "1";
                    o.y = nums(b, 2);
                    outs.push_back(o);
                }
            BO bo;
            for (auto& b : block) {
                if (b[0] != "start")
                    continue;
                J("start").b("reset", b[1] == "1").emit();
                bool raised = false;
                try {
                    bo.optimize(Fun(), b[1] == "1");
                }
                catch (...) {
                    raised = true;
                }
                if (raised)
                    J("raise").emit();
                else
                    J("end").i("it", bo.current_iteration()).i("tot", bo.total_iterations()).emit();
                seen(bo);
            }
        }
        block.clear();
    };
    while (mbv::next_line(t)) {
        if (t[0] == "new")
            flush();
        block.push_back(t);
    }
    flush();
    return 0;
}
