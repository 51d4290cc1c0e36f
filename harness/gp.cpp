// Replays scripts on model::GP (one kernel/mean/tuner combination per VARIANT) and records what it observes.
#include "common.hpp"
#include "gpref.hpp"
#include <limbo/limbo.hpp>
#include <limbo/model/gp/kernel_loo_opt.hpp>
#include <limbo/model/gp/kernel_mean_lf_opt.hpp>
#include <limbo/model/gp/mean_lf_opt.hpp>
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/kernel/matern_three_halves.hpp>
#include <limbo/mean/null_function.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/function_ard.hpp>
#include <limbo/serialize/text_archive.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <memory>
#include <map>
using namespace limbo;
using mbv::J;
using gpref::R;
using gpref::VR;
using V = Eigen::VectorXd;
#ifndef VARIANT
#define VARIANT 0
#endif

struct Params {
    struct kernel : defaults::kernel {
        BO_PARAM(double, noise, VARIANT == 2 ? 1e-3 : VARIANT == 4 ? 1e-4 : 0.02);
        BO_PARAM(bool, optimize_noise, VARIANT == 1 || VARIANT == 3 || VARIANT == 5);
    };
    struct kernel_exp {
        BO_PARAM(double, sigma_sq, 1.5);
        BO_PARAM(double, l, 0.6);
    };
    struct kernel_maternthreehalves {
        BO_PARAM(double, sigma_sq, 0.8);
        BO_PARAM(double, l, 0.5);
    };
    struct kernel_maternfivehalves {
        BO_PARAM(double, sigma_sq, 2.);
        BO_PARAM(double, l, 0.7);
    };
    struct kernel_squared_exp_ard {
        BO_PARAM(double, sigma_sq, 1.2);
        BO_PARAM(int, k, VARIANT == 3 ? 1 : 0);
    };
    struct mean_constant {
        BO_PARAM(double, constant, 0.5);
    };
    struct opt_rprop {
        BO_PARAM(int, iterations, 30);
        BO_PARAM(double, eps_stop, 0.);
    };
};
// a mean function of the user: depends on the point and has parameters
struct UserMean : public mean::BaseMean<Params> {
    V c;
    UserMean(size_t d = 1) : c(V::Constant(d, 0.75)) {}
    template <typename GP>
    V operator()(const V& x, const GP&) const
    {
        V r(c.size());
        for (int i = 0; i < c.size(); i++)
            r(i) = c(i) * x(0) + 0.25 * i;
        return r;
    }
    template <typename GP>
    Eigen::MatrixXd grad(const V& x, const GP&) const
    {
        Eigen::MatrixXd g = Eigen::MatrixXd::Zero(c.size(), c.size());
        for (int i = 0; i < c.size(); i++)
            g(i, i) = x(0);
        return g;
    }
    size_t h_params_size() const { return c.size(); }
    V h_params() const { return c; }
    void set_h_params(const V& p) { c = p; }
};

#if VARIANT == 0
using K = limbo::kernel::Exp<Params>;
using M = mean::Constant<Params>;
using H = model::gp::KernelMeanLFOpt<Params>;
static const gpref::Kernel KK = gpref::EXP;
#elif VARIANT == 1
using K = limbo::kernel::MaternThreeHalves<Params>;
using M = mean::NullFunction<Params>;
using H = model::gp::KernelLooOpt<Params>;
static const gpref::Kernel KK = gpref::M32;
#elif VARIANT == 2
using K = limbo::kernel::MaternFiveHalves<Params>;
using M = mean::Data<Params>;
using H = model::gp::NoLFOpt<Params>;
static const gpref::Kernel KK = gpref::M52;
#elif VARIANT == 3
using K = limbo::kernel::SquaredExpARD<Params>;
using M = mean::FunctionARD<Params, UserMean>;
using H = model::gp::MeanLFOpt<Params>;
static const gpref::Kernel KK = gpref::SE;
#elif VARIANT == 4
using K = limbo::kernel::SquaredExpARD<Params>;
using M = mean::Data<Params>;
using H = model::gp::KernelLFOpt<Params>;
static const gpref::Kernel KK = gpref::SE;
#else
using K = limbo::kernel::MaternFiveHalves<Params>;
using M = mean::FunctionARD<Params, mean::Data<Params>>;
using H = model::gp::KernelMeanLFOpt<Params>;
static const gpref::Kernel KK = gpref::M52;
#endif
using GP = model::GP<Params, K, M, H>;
static const bool NOISE = Params::kernel::optimize_noise();
static const bool HASM = VARIANT == 0 || VARIANT == 3 || VARIANT == 5;

// ---- identifiers <-> values
static V xval(long id, int d)
{
    V v(d);
    for (int i = 0; i < d; i++)
        v(i) = std::fmod(0.137 * id + 0.61 * i * id + 0.29 * i + 0.05, 1.);
    return v;
}
static V yval(long id, int d)
{
    V v(d);
    for (int i = 0; i < d; i++)
        v(i) = 2. * std::sin(1.3 * id + 2.1 * i) + 0.03125 * id;
    return v;
}
static long find_id(const V& v, bool x)
{
    for (long id = 1; id <= 60; id++)
        if (((x ? xval(id, v.size()) : yval(id, v.size())) - v).cwiseAbs().maxCoeff() < 1e-9)
            return id;
    return -1;
}
struct Versions { // parameter versions; 1: default, 2..9 fixed, >= 100: found by tuning
    std::vector<V> extra;
    static V fixed(int v, const V& def, bool noise)
    {
        if (v == 1)
            return def;
        V p(def.size());
        for (int i = 0; i < p.size(); i++)
            p(i) = (((v * 7 + i * 5) % 9) - 4) / 6.;
        if (noise)
            p(p.size() - 1) = -2. + 0.4 * p(p.size() - 1);
        return p;
    }
    static bool same(const V& a, const V& b) { return a.size() == b.size() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() < 1e-9 * (1 + a.cwiseAbs().maxCoeff())); }
    long find(const V& p, const V& def, bool noise, bool add)
    {
        for (int v = 1; v <= 6; v++)
            if (same(p, fixed(v, def, noise)))
                return v;
        for (size_t i = 0; i < extra.size(); i++)
            if (same(p, extra[i]))
                return 100 + i;
        if (!add)
            return -1;
        extra.push_back(p);
        return 100 + extra.size() - 1;
    }
};
static Versions kvs, mvs;
static V kdef(int din) { return K(din).h_params(); }
static V mdef(int dout) { return M(dout).h_params(); }

struct Slot {
    std::unique_ptr<GP> gp;
    int din = 0, dout = 0; // 0: not known yet
    double lik = 0, loo = 0;
};
static Slot slots[3];

static gpref::GP reference(const GP& gp, int din, int dout)
{
    gpref::GP r;
    r.kern = KK;
#if VARIANT == 3
    r.ard_k = 1;
#endif
    V hp = gp.kernel_function().h_params();
    r.noise = Params::kernel::noise();
    if (NOISE) {
        r.noise = expl(2 * (R)hp(hp.size() - 1));
        hp = V(hp.head(hp.size() - 1));
    }
    r.khp = gpref::vr(hp);
    for (auto& x : gp.samples())
        r.X.push_back(gpref::vr(x));
    for (auto& y : gp.observations())
        r.Y.push_back(gpref::vr(y));
    r.dout = dout;
    VR mhp;
    if (HASM)
        mhp = gpref::vr(gp.mean_function().h_params());
    VR avg(dout, 0);
    for (auto& y : r.Y)
        for (int o = 0; o < dout; o++)
            avg[o] += y[o] / r.Y.size();
    r.mean = [=](const VR& x) {
        VR m(dout, 0);
#if VARIANT == 0
        for (int o = 0; o < dout; o++)
            m[o] = mhp[0];
#elif VARIANT == 2 || VARIANT == 4
        m = avg;
#elif VARIANT == 3 || VARIANT == 5
        VR b(dout);
        for (int o = 0; o < dout; o++)
#if VARIANT == 3
            b[o] = mhp[dout * (dout + 1) + o] * x[0] + 0.25L * o;
#else
            b[o] = avg[o];
#endif
        for (int o = 0; o < dout; o++) {
            m[o] = mhp[o * (dout + 1) + dout];
            for (int q = 0; q < dout; q++)
                m[o] += mhp[o * (dout + 1) + q] * b[q];
        }
#endif
        return m;
    };
    return r;
}
static gpref::GP with(const Slot& s, const V* k, const V* m)
{
    GP g(*s.gp);
    if (k)
        g.kernel_function().set_h_params(*k);
    if (m)
        g.mean_function().set_h_params(*m);
    return reference(g, s.din, s.dout);
}
static bool cmp(R got, R want, R cond, R mult = 1)
{
    if (!std::isfinite((double)want))
        return true; // not comparable
    R t = gpref::tolerance(cond);
    return t < 0 || (std::isfinite((double)got) && gpref::close(got, want, t * mult));
}
// numeric gradient of a criterion of the reference
static bool grad_ok(const Slot& s, const V& g, bool kernel, bool loo)
{
    V p = kernel ? s.gp->kernel_function().h_params() : s.gp->mean_function().h_params();
    if (g.size() != p.size())
        return false;
    R cond = 1;
    auto f = [&](const V& q) {
        gpref::GP r = with(s, kernel ? &q : nullptr, kernel ? nullptr : &q);
        return loo ? r.loo(&cond) : r.lik(&cond);
    };
    R c0;
    R scale = g.size() ? (R)g.cwiseAbs().maxCoeff() : 0;
    for (int i = 0; i < p.size(); i++) {
        volatile double h = 1. / 16384;
        V a = p, b = p;
        a(i) += h;
        b(i) -= h;
        V a2 = p, b2 = p;
        a2(i) += 2 * h;
        b2(i) -= 2 * h;
        R d = (8 * (f(a) - f(b)) - (f(a2) - f(b2))) / (12 * (R)h);
        if (!std::isfinite((double)d))
            return true;
        R t = gpref::tolerance(cond);
        if (t < 0)
            return true;
        if (!(fabsl(d - g(i)) <= std::max<R>(1e-6L, t) * (10 + scale + fabsl(d))))
            return false;
    }
    return true;
}

static std::string state(Slot& s, bool add_versions = false)
{
    if (!s.din)
        return "{\"dims\":[0,0],\"xs\":[],\"ys\":[],\"kv\":1,\"mv\":1,\"mo\":true}";
    GP& g = *s.gp;
    std::vector<long> xs, ys;
    for (auto& x : g.samples())
        xs.push_back(x.size() == s.din ? find_id(x, true) : -2);
    auto obs = g.observations();
    V mo = V::Zero(s.dout);
    bool dims = g.dim_in() == s.din && g.dim_out() == s.dout && g.nb_samples() == (int)xs.size();
    for (auto& y : obs) {
        ys.push_back(y.size() == s.dout ? find_id(y, false) : -2);
        if (y.size() == s.dout)
            mo += y / obs.size();
    }
    V got = g.mean_observation();
    bool ok = got.size() == mo.size() && (got - mo).cwiseAbs().maxCoeff() < 1e-9 && dims;
    if (s.dout == 1 && !obs.empty()) {
        double mx = obs[0](0);
        for (auto& y : obs)
            mx = std::max(mx, y(0));
        ok = ok && g.max_observation().size() == 1 && std::abs(g.max_observation()(0) - mx) < 1e-12;
    }
    long kv = kvs.find(g.kernel_function().h_params(), kdef(s.din), NOISE, add_versions);
    long mv = HASM ? mvs.find(g.mean_function().h_params(), mdef(s.dout), false, add_versions) : 1;
    return "{\"dims\":[" + std::to_string(s.din) + "," + std::to_string(s.dout) + "],\"xs\":" + J::list(xs) + ",\"ys\":" + J::list(ys) + ",\"kv\":" + std::to_string(kv) + ",\"mv\":" + std::to_string(mv) + ",\"mo\":" + (ok ? "true" : "false") + "}";
}
static double var_tol(const gpref::GP& r, const VR& x) { return (double)(r.k(x, x) + r.noise); }

static std::string join(const std::vector<std::string>& t)
{
    std::string r;
    for (auto& c : t)
        r += (r.empty() ? "" : " ") + c;
    return r;
}

template <typename G>
static void save_load(G& gp, bool save, int place, bool rec, int how)
{
    std::string dir = "place" + std::to_string(place);
    bool bin = place % 2 == 0;
    if (save) {
        if (bin) {
            if (how)
                gp.template save<serialize::BinaryArchive>(dir);
            else
                gp.save(serialize::BinaryArchive(dir));
        }
        else {
            if (how)
                gp.template save<serialize::TextArchive>(dir);
            else
                gp.save(serialize::TextArchive(dir));
        }
    }
    else {
        if (bin) {
            if (how)
                gp.template load<serialize::BinaryArchive>(dir, rec);
            else
                gp.load(serialize::BinaryArchive(dir), rec);
        }
        else {
            if (how)
                gp.template load<serialize::TextArchive>(dir, rec);
            else
                gp.load(serialize::TextArchive(dir), rec);
        }
    }
}

int main()
{
    std::vector<std::string> t;
    while (mbv::next_line(t)) {
        auto I = [&](size_t i) { return std::stol(t.at(i)); };
        const std::string& c = t[0];
        if (c == "new") {
            for (auto& s : slots) {
                s = Slot();
                s.gp.reset(new GP());
            }
            kvs.extra.clear();
            mvs.extra.clear();
            if (system("rm -rf place1 place2 place3 place4") != 0)
                mbv::die("rm");
            J("new").i("variant", VARIANT).emit();
            continue;
        }
        Slot& s = slots[I(1)];
        J j(c);
        j.i("s", I(1));
        if (c == "construct") {
            s = Slot();
            s.din = I(2);
            s.dout = I(3);
            s.gp.reset(new GP(s.din, s.dout));
            j.i("din", s.din).i("dout", s.dout);
        }
        else if (c == "compute") { // s ck din dout x1 y1 x2 y2 ...
            s.din = I(3);
            s.dout = I(4);
            std::vector<V> xs, ys;
            std::vector<long> xi, yi;
            for (size_t i = 5; i + 1 < t.size(); i += 2) {
                xi.push_back(I(i));
                yi.push_back(I(i + 1));
                xs.push_back(xval(I(i), s.din));
                ys.push_back(yval(I(i + 1), s.dout));
            }
            if (I(2) == 1)
                s.gp->compute(xs, ys);
            else
                s.gp->compute(xs, ys, false);
            j.b("ck", I(2) == 1).i("din", s.din).i("dout", s.dout).li("xi", xi).li("yi", yi);
        }
        else if (c == "add") {
            s.din = I(4);
            s.dout = I(5);
            s.gp->add_sample(xval(I(2), s.din), yval(I(3), s.dout));
            j.i("x", I(2)).i("y", I(3)).i("din", s.din).i("dout", s.dout);
        }
        else if (c == "setk") {
            s.gp->kernel_function().set_h_params(Versions::fixed(I(2), kdef(s.din), NOISE));
            j.i("v", I(2));
        }
        else if (c == "setm") {
            if (HASM)
                s.gp->mean_function().set_h_params(Versions::fixed(I(2), mdef(s.dout), false));
            j.i("v", HASM ? I(2) : 1);
        }
        else if (c == "recompute") {
            bool om = I(2) == 1, fk = I(3) == 1;
            if (om && fk)
                s.gp->recompute();
            else if (fk)
                s.gp->recompute(om);
            else
                s.gp->recompute(om, fk);
            j.b("om", om).b("fk", fk);
        }
        else if (c == "query") {
            gpref::GP r = reference(*s.gp, s.din, s.dout);
            bool mu = true, sg = true, q = true, same = true, rs = true;
            std::vector<V> probes;
            for (int p = 0; p < 3; p++)
                probes.push_back(xval(I(2) + 7 * p, s.din));
            V far = V::Constant(s.din, 3.5);
            probes.push_back(far);
            if (!r.X.empty())
                probes.push_back(s.gp->samples().back());
            for (auto& v : probes) {
                auto p = r.predict(gpref::vr(v));
                V m = s.gp->mu(v);
                double g = s.gp->sigma(v);
                auto qq = s.gp->query(v);
                if (!p.ok)
                    continue;
                mu = mu && m.size() == s.dout;
                for (int o = 0; o < s.dout && mu; o++)
                    mu = mu && cmp(m(o), p.mu[o], p.cond);
                sg = sg && cmp(g, p.var, p.cond);
                q = q && std::get<0>(qq).size() == m.size() && (std::get<0>(qq) - m).cwiseAbs().maxCoeff() <= 1e-9 * (1 + m.cwiseAbs().maxCoeff()) && std::abs(std::get<1>(qq) - g) <= 1e-9 * (1 + std::abs(g));
                same = same && (V(s.gp->mu(v)) - m).cwiseAbs().maxCoeff() == 0. && s.gp->sigma(v) == g;
            }
            if (!r.X.empty()) { // residuals and mean vector
                Eigen::MatrixXd om = s.gp->obs_mean(), mv = s.gp->mean_vector();
                rs = om.rows() == (int)r.X.size() && om.cols() == s.dout && mv.rows() == om.rows() && mv.cols() == om.cols();
                for (int i = 0; rs && i < om.rows(); i++)
                    for (int o = 0; rs && o < om.cols(); o++)
                        rs = cmp(om(i, o), r.resid(o)[i], 1) && cmp(mv(i, o), r.mean(r.X[i])[o], 1);
            }
            j.b("mu", mu).b("sg", sg).b("q", q).b("same", same).b("rs", rs);
        }
        else if (c == "lik" || c == "loo") {
            gpref::GP r = reference(*s.gp, s.din, s.dout);
            R cond = 1, want = c == "lik" ? r.lik(&cond) : r.loo(&cond);
            double got = c == "lik" ? s.gp->compute_log_lik() : s.gp->compute_log_loo_cv();
            (c == "lik" ? s.lik : s.loo) = got;
            j.b("ok", cmp(got, want, cond, 10));
        }
        else if (c == "gk")
            j.b("ok", grad_ok(s, s.gp->compute_kernel_grad_log_lik(), true, false));
        else if (c == "gm")
            j.b("ok", !HASM || grad_ok(s, s.gp->compute_mean_grad_log_lik(), false, false));
        else if (c == "gloo")
            j.b("ok", grad_ok(s, s.gp->compute_kernel_grad_log_loo_cv(), true, true));
        else if (c == "inv")
            s.gp->compute_inv_kernel();
        else if (c == "putlik" || c == "putloo") {
            double v = I(2) * 0.5;
            if (c == "putlik")
                s.gp->set_log_lik(s.lik = v);
            else
                s.gp->set_log_loo_cv(s.loo = v);
            j.i("v", I(2));
        }
        else if (c == "getlik")
            j.b("ok", s.gp->get_log_lik() == s.lik);
        else if (c == "getloo")
            j.b("ok", s.gp->get_log_loo_cv() == s.loo);
        else if (c == "copy") {
            Slot& d = slots[I(2)];
            if (I(3) == 1)
                d.gp.reset(new GP(*s.gp));
            else
                *d.gp = *s.gp;
            d.din = s.din;
            d.dout = s.dout;
            d.lik = s.lik;
            d.loo = s.loo;
            j.i("t", I(2)).raw("st2", state(d));
        }
        else if (c == "tune") {
            bool loo = VARIANT == 1;
            R c0 = 1, c1 = 1;
            gpref::GP r0 = reference(*s.gp, s.din, s.dout);
            R before = loo ? r0.loo(&c0) : r0.lik(&c0);
            s.gp->optimize_hyperparams();
            gpref::GP r1 = reference(*s.gp, s.din, s.dout);
            R after = loo ? r1.loo(&c1) : r1.lik(&c1);
            R t = std::max(gpref::tolerance(c0), gpref::tolerance(c1));
            bool comparable = gpref::tolerance(c0) > 0 && gpref::tolerance(c1) > 0 && std::isfinite((double)before);
            bool ge = !comparable || after >= before - 10 * t * (1 + fabsl(before));
            bool stored = true;
            if (VARIANT != 2) {
                stored = cmp(loo ? s.gp->get_log_loo_cv() : s.gp->get_log_lik(), after, c1, 10);
                (loo ? s.loo : s.lik) = loo ? s.gp->get_log_loo_cv() : s.gp->get_log_lik();
            }
            std::string st = state(s, true); // registers the new versions
            j.b("ge", ge).b("stored", stored);
        }
        else if (c == "save")  {
            save_load(*s.gp, true, I(2), false, I(3));
            j.i("p", I(2));
        }
        else if (c == "load") {
            save_load(*s.gp, false, I(2), I(3) == 1, I(4));
            if (s.gp->nb_samples() > 0) {
                s.din = s.gp->samples()[0].size();
                s.dout = s.gp->observations_matrix().cols();
            }
            j.i("p", I(2)).b("rec", I(3) == 1);
        }
        else
            mbv::die("unknown command " + join(t));
        j.raw("st", state(s)).emit();
    }
    return 0;
}
