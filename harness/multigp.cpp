// Replays scripts on model::MultiGP (one kernel/mean combination per VARIANT) and records what it observes.
// new | make s di do | compute s di do k x.. | add s di do x | setk s i v | setm s v | recompute s om fk | tune s
// | copy s t | save s p | load s p r | query s x; the last token tells whether the predictions are determined.
#include "common.hpp"
#include "gpref.hpp"
#include <limbo/limbo.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/sparsified_gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/kernel/matern_three_halves.hpp>
#include <limbo/mean/null_function.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/function_ard.hpp>
#include <limbo/serialize/text_archive.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <memory>
using namespace limbo;
using mbv::J;
using gpref::R;
using gpref::VR;
using V = Eigen::VectorXd;

struct Params {
    struct kernel : defaults::kernel {
        BO_PARAM(double, noise, 0.02);
        BO_PARAM(bool, optimize_noise, VARIANT == 0);
    };
    struct kernel_exp {
        BO_PARAM(double, sigma_sq, 1.5);
        BO_PARAM(double, l, 0.6);
    };
    struct kernel_maternthreehalves {
        BO_PARAM(double, sigma_sq, 0.8);
        BO_PARAM(double, l, 0.5);
    };
    struct kernel_maternfivehalves {
        BO_PARAM(double, sigma_sq, 2.);
        BO_PARAM(double, l, 0.7);
    };
    struct kernel_squared_exp_ard {
        BO_PARAM(double, sigma_sq, 1.2);
        BO_PARAM(int, k, 0);
    };
    struct mean_constant {
        BO_PARAM(double, constant, 0.5);
    };
    struct opt_rprop {
        BO_PARAM(int, iterations, 30);
        BO_PARAM(double, eps_stop, 0.);
    };
    struct model_sparse_gp {
        BO_PARAM(int, max_points, 100);
    };
};
// a mean function of the user: depends on the point and has parameters
struct UserMean : public mean::BaseMean<Params> {
    V c;
    UserMean(size_t d = 1) : c(V::Constant(d, 0.75)) {}
    template <typename GP>
    V operator()(const V& x, const GP&) const
    {
        V r(c.size());
        for (int i = 0; i < c.size(); i++)
            r(i) = c(i) * x(0) + 0.25 * i;
        return r;
    }
    template <typename GP>
    Eigen::MatrixXd grad(const V& x, const GP&) const { return Eigen::MatrixXd::Identity(c.size(), c.size()) * x(0); }
    size_t h_params_size() const { return c.size(); }
    V h_params() const { return c; }
    void set_h_params(const V& p) { c = p; }
};
#if VARIANT == 0
using K = limbo::kernel::SquaredExpARD<Params>;
using M = mean::Data<Params>;
static const gpref::Kernel KK = gpref::SE;
#elif VARIANT == 1
using K = limbo::kernel::MaternFiveHalves<Params>;
using M = mean::FunctionARD<Params, UserMean>;
static const gpref::Kernel KK = gpref::M52;
#elif VARIANT == 2
using K = limbo::kernel::Exp<Params>;
using M = mean::Constant<Params>;
static const gpref::Kernel KK = gpref::EXP;
#elif VARIANT == 3
using K = limbo::kernel::MaternThreeHalves<Params>;
using M = mean::NullFunction<Params>;
static const gpref::Kernel KK = gpref::M32;
#else
using K = limbo::kernel::MaternFiveHalves<Params>;
using M = mean::FunctionARD<Params, mean::Data<Params>>;
static const gpref::Kernel KK = gpref::M52;
#endif
using T = model::gp::KernelLFOpt<Params>;
#ifdef SPARSE // a sparsified model far from its limit is an ordinary model
using MGP = model::MultiGP<Params, model::SparsifiedGP, K, M, model::multi_gp::ParallelLFOpt<Params, T>>;
#else
using MGP = model::MultiGP<Params, model::GP, K, M, model::multi_gp::ParallelLFOpt<Params, T>>;
#endif
using Single = model::GP<Params, K, mean::NullFunction<Params>, T>;
static const bool NOISE = Params::kernel::optimize_noise();
static const bool HASM = VARIANT == 1 || VARIANT == 2 || VARIANT == 4;

static V xval(long id, int d)
{
    V v(d);
    for (int i = 0; i < d; i++)
        v(i) = std::fmod(0.137 * id + 0.61 * i * id + 0.29 * i + 0.05, 1.);
    return v;
}
static V yval(long id, int d)
{
    V v(d);
    for (int i = 0; i < d; i++)
        v(i) = 2. * std::sin(1.3 * id + 2.1 * i) + 0.03125 * id;
    return v;
}
static long find_id(const V& v, bool x)
{
    for (long id = 1; id <= 200; id++)
        if (((x ? xval(id, v.size()) : yval(id, v.size())) - v).cwiseAbs().maxCoeff() < 1e-9)
            return id;
    return -1;
}
static std::vector<V> extra; // parameters found by tuning: versions 100, 101, ...
static V fixed(int v, const V& def, bool noise)
{
    if (v == 1)
        return def;
    V p(def.size());
    for (int i = 0; i < p.size(); i++)
        p(i) = (((v * 7 + i * 5) % 9) - 4) / 6.;
    if (noise)
        p(p.size() - 1) = -2. + 0.4 * p(p.size() - 1);
    return p;
}
static bool same(const V& a, const V& b) { return a.size() == b.size() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() < 1e-9 * (1 + a.cwiseAbs().maxCoeff())); }
static std::vector<long> versions(const V& p, const V& def, bool noise)
{
    std::vector<long> r;
    for (int v = 1; v <= 6; v++)
        if (same(p, fixed(v, def, noise)))
            r.push_back(v);
    for (size_t i = 0; i < extra.size(); i++)
        if (same(p, extra[i]))
            r.push_back(100 + i);
    return r;
}
static V kdef(int din) { return K(din).h_params(); }
static V mdef(int dout) { return M(dout).h_params(); }

struct Slot {
    std::unique_ptr<MGP> gp;
    int din = 0, dout = 0; // 0: not known yet
};
static Slot slots[4];

static std::function<VR(const VR&)> mean_of(const MGP& gp, int dout)
{
    VR mhp;
    if (HASM)
        mhp = gpref::vr(gp.mean_function().h_params());
    VR avg(dout, 0);
    auto obs = gp.observations();
    for (auto& y : obs)
        for (int o = 0; o < dout; o++)
            avg[o] += (R)y(o) / obs.size();
    return [=](const VR& x) {
        VR m(dout, 0), b(dout);
#if VARIANT == 0
        m = avg;
#elif VARIANT == 2
        for (int o = 0; o < dout; o++)
            m[o] = mhp[0];
#elif VARIANT == 1 || VARIANT == 4
        for (int o = 0; o < dout; o++)
            b[o] = VARIANT == 1 ? mhp.at((dout * (dout + 1) + o) % mhp.size()) * x[0] + 0.25L * o : avg[o];
        for (int o = 0; o < dout; o++) {
            m[o] = mhp[o * (dout + 1) + dout];
            for (int q = 0; q < dout; q++)
                m[o] += mhp[o * (dout + 1) + q] * b[q];
        }
#endif
        return m;
    };
}
// the single-output model of one output
static gpref::GP reference(MGP& gp, int i, int dout)
{
    gpref::GP r;
    r.kern = KK;
    V hp = gp.gp_models()[i].kernel_function().h_params();
    r.noise = 0.02;
    if (NOISE) {
        r.noise = expl(2 * (R)hp(hp.size() - 1));
        hp = V(hp.head(hp.size() - 1));
    }
    r.khp = gpref::vr(hp);
    auto m = mean_of(gp, dout);
    r.dout = 1;
    auto& xs = gp.samples();
    auto& ys = gp.observations();
    for (size_t k = 0; k < xs.size() && k < ys.size(); k++) {
        r.X.push_back(gpref::vr(xs[k]));
        r.Y.push_back(VR(1, ys[k](i) - m(r.X.back())[i]));
    }
    r.mean = [](const VR&) { return VR(1, 0); };
    return r;
}
static bool cmp(R got, R want, R cond)
{
    if (!std::isfinite((double)want))
        return true; // not comparable
    R t = gpref::tolerance(cond);
    return t < 0 || (std::isfinite((double)got) && gpref::close(got, want, t));
}
static bool predictions(Slot& s, long x0)
{
    MGP& g = *s.gp;
    std::vector<V> probes = {xval(x0, s.din), xval(x0 + 7, s.din), V::Constant(s.din, 3.5)};
    if (g.nb_samples())
        probes.push_back(g.samples()[x0 % g.nb_samples()]);
    auto m = mean_of(g, s.dout);
    for (auto& v : probes) {
        V mu = g.mu(v), sg = g.sigma(v), qm, qs;
        std::tie(qm, qs) = g.query(v);
        if (mu.size() != s.dout || sg.size() != s.dout || qm.size() != s.dout || qs.size() != s.dout)
            return false;
        if ((mu - qm).cwiseAbs().maxCoeff() > 1e-9 * (1 + mu.cwiseAbs().maxCoeff()) || (sg - qs).cwiseAbs().maxCoeff() > 1e-9)
            return false;
        for (int i = 0; i < s.dout; i++) {
            auto p = reference(g, i, s.dout).predict(gpref::vr(v));
            if (!p.ok)
                continue;
            if (!cmp(mu(i), p.mu[0] + m(gpref::vr(v))[i], p.cond) || !cmp(sg(i), p.var, p.cond))
                return false;
        }
    }
    return true;
}
static std::string state(Slot& s)
{
    MGP& g = *s.gp;
    std::vector<long> xs, ys;
    bool ok = g.dim_in() == s.din && g.dim_out() == s.dout && (int)g.gp_models().size() == s.dout;
    if (ok)
        for (auto& x : g.samples())
            xs.push_back(x.size() == s.din ? find_id(x, true) : -2);
    auto obs = g.observations();
    V mo = V::Zero(s.dout);
    for (auto& y : obs) {
        ys.push_back(y.size() == s.dout ? find_id(y, false) : -2);
        if (y.size() == s.dout)
            mo += y / obs.size();
    }
    ok = ok && g.nb_samples() == (int)ys.size();
    V got = g.mean_observation();
    ok = ok && same(got, mo);
    if (ok && !obs.empty()) {
        Eigen::MatrixXd om = g.observations_matrix();
        ok = om.rows() == (int)obs.size() && om.cols() == s.dout;
        for (size_t i = 0; ok && i < obs.size(); i++)
            ok = V(om.row(i)) == obs[i];
    }
    std::vector<std::string> kv;
    for (auto& sub : g.gp_models()) {
        kv.push_back(J::list(versions(sub.kernel_function().h_params(), kdef(s.din), NOISE)));
        // every sub-model has the same samples
        ok = ok && sub.samples().size() == g.samples().size();
        for (size_t i = 0; ok && i < sub.samples().size(); i++)
            ok = sub.samples()[i] == g.samples()[i];
    }
    std::vector<long> mv(1, 1);
    if (HASM)
        mv = versions(g.mean_function().h_params(), mdef(s.dout), false);
    return "{\"d\":[" + std::to_string(s.din) + "," + std::to_string(s.dout) + "],\"xs\":" + J::list(xs) + ",\"ys\":" + J::list(ys) + ",\"kv\":" + J::list(kv) + ",\"mv\":" + J::list(mv) + ",\"mo\":" + (ok ? "true" : "false") + "}";
}
template <typename A>
static void archive(MGP& gp, bool save, const std::string& dir, bool rec, bool how)
{
    if (save && how)
        gp.template save<A>(dir);
    else if (save)
        gp.save(A(dir));
    else if (how && rec)
        gp.template load<A>(dir);
    else if (how)
        gp.template load<A>(dir, rec);
    else
        gp.load(A(dir), rec);
}
int main()
{
    std::vector<std::string> t;
    long count = 0;
    while (mbv::next_line(t)) {
        auto I = [&](size_t i) { return std::stol(t.at(i)); };
        const std::string& c = t[0];
        if (c == "new") {
            for (auto& s : slots) {
                s = Slot();
                s.gp.reset(new MGP());
            }
            extra.clear();
            if (system("rm -rf place1 place2") != 0)
                mbv::die("rm");
            J("new").emit();
            continue;
        }
        count++;
        Slot& s = slots[I(1)];
        bool ex = t.back() == "1";
        J j(c);
        j.i("s", I(1));
        Slot* show = &s;
        std::vector<long> d;
        if (c == "make") {
            s = Slot();
            s.din = I(2);
            s.dout = I(3);
            s.gp.reset(s.din ? new MGP(s.din, s.dout) : new MGP());
            j.li("d", {s.din, s.dout}).emit();
            continue;
        }
        if (c == "compute") {
            s.din = I(2);
            s.dout = I(3);
            std::vector<V> xs, ys;
            std::vector<long> ids;
            for (size_t i = 5; i + 1 < t.size(); i++) {
                ids.push_back(I(i));
                xs.push_back(xval(I(i), s.din));
                ys.push_back(yval(I(i), s.dout));
            }
            if (I(4) && count % 2)
                s.gp->compute(xs, ys);
            else
                s.gp->compute(xs, ys, I(4));
            j.li("d", {s.din, s.dout}).li("xs", ids).b("k", I(4));
        }
        else if (c == "add") {
            s.din = I(2);
            s.dout = I(3);
            s.gp->add_sample(xval(I(4), s.din), yval(I(4), s.dout));
            j.li("d", {s.din, s.dout}).i("x", I(4));
        }
        else if (c == "setk") {
            s.gp->gp_models().at(I(2) - 1).kernel_function().set_h_params(fixed(I(3), kdef(s.din), NOISE));
            j.i("i", I(2)).i("v", I(3));
        }
        else if (c == "setm") {
            s.gp->mean_function().set_h_params(fixed(I(2), mdef(s.dout), false));
            j.i("v", I(2));
        }
        else if (c == "recompute") {
            if (I(2) && I(3))
                s.gp->recompute();
            else if (I(3))
                s.gp->recompute(I(2));
            else
                s.gp->recompute(I(2), I(3));
            j.b("om", I(2)).b("fk", I(3));
        }
        else if (c == "tune") {
            std::vector<R> before, single, tol;
            for (int i = 0; i < s.dout; i++) {
                R c0 = 1, c1 = 1;
                gpref::GP r = reference(*s.gp, i, s.dout);
                before.push_back(r.lik(&c0));
                // the same data and initial parameters in a single-output model
                Single one(s.din, 1);
                one.kernel_function().set_h_params(s.gp->gp_models()[i].kernel_function().h_params());
                std::vector<V> ys;
                for (auto& y : r.Y)
                    ys.push_back(tools::make_vector((double)y[0]));
                one.compute(s.gp->samples(), ys);
                one.optimize_hyperparams();
                V hp = one.kernel_function().h_params();
                if (NOISE) {
                    r.noise = expl(2 * (R)hp(hp.size() - 1));
                    hp = V(hp.head(hp.size() - 1));
                }
                r.khp = gpref::vr(hp);
                single.push_back(r.lik(&c1));
                tol.push_back(gpref::tolerance(c0) < 0 || gpref::tolerance(c1) < 0 ? -1 : std::max(gpref::tolerance(c0), gpref::tolerance(c1)));
            }
            s.gp->optimize_hyperparams();
            std::vector<long> kv;
            std::vector<std::string> better;
            for (int i = 0; i < s.dout; i++) {
                V hp = s.gp->gp_models()[i].kernel_function().h_params();
                auto vs = versions(hp, kdef(s.din), NOISE);
                if (vs.empty()) {
                    extra.push_back(hp);
                    vs.push_back(100 + extra.size() - 1);
                }
                kv.push_back(vs[0]);
                R cc = 1, after = reference(*s.gp, i, s.dout).lik(&cc), tt = gpref::tolerance(cc);
                bool cmpb = tol[i] > 0 && tt > 0 && std::isfinite((double)before[i]) && std::isfinite((double)single[i]);
                R e = 10 * std::max(tt, tol[i]);
                better.push_back(!cmpb || (after >= before[i] - e * (1 + fabsl(before[i])) && after >= single[i] - (1e-3L + e) * (1 + fabsl(single[i]))) ? "true" : "false");
            }
            j.li("kv", kv).raw("better", J::list(better));
        }
        else if (c == "copy") {
            Slot& u = slots[I(2)];
            if (count % 2 && &u != &s)
                u.gp.reset(new MGP(*s.gp));
            else
                *u.gp = *s.gp;
            u.din = s.din;
            u.dout = s.dout;
            show = &u;
            j.i("t", I(2));
        }
        else if (c == "save" || c == "load") {
            std::string dir = "place" + std::to_string(I(2));
            bool rec = c == "load" && I(3);
            if (I(2) == 2)
                archive<serialize::BinaryArchive>(*s.gp, c == "save", dir, rec, count % 2);
            else
                archive<serialize::TextArchive>(*s.gp, c == "save", dir, rec, count % 2);
            j.i("p", I(2));
            if (c == "load") {
                s.din = s.gp->dim_in();
                s.dout = s.gp->dim_out();
                j.b("r", rec);
            }
        }
        else if (c != "query")
            mbv::die("unknown command " + c);
        if (show->din > 0) {
            j.raw("st", state(*show));
            j.b("pred", ex && predictions(*show, c == "query" ? I(2) : count % 40));
        }
        j.emit();
    }
    return 0;
}
