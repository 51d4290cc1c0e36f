// Replays scripts on the kernel and mean functions and records which parameter versions explain what they give.
// new | make fam dim noise | set o v | copy o | assign o p | data d | hp o | val o x y i j | grad o x y i j
#include "common.hpp"
#include "gpref.hpp"
#include <limbo/limbo.hpp>
#include <limbo/kernel/exp.hpp>
#include <limbo/kernel/matern_three_halves.hpp>
#include <limbo/kernel/matern_five_halves.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>
#include <limbo/mean/null_function.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/function_ard.hpp>
#include <memory>
using namespace limbo;
using mbv::J;
using gpref::R;
using gpref::VR;
using V = Eigen::VectorXd;

template <bool NOISE, int KK>
struct Params {
    struct kernel {
        BO_PARAM(double, noise, 0.02);
        BO_PARAM(bool, optimize_noise, NOISE);
    };
    struct kernel_exp {
        BO_PARAM(double, sigma_sq, 1.5);
        BO_PARAM(double, l, 0.6);
    };
    struct kernel_maternthreehalves {
        BO_PARAM(double, sigma_sq, 0.8);
        BO_PARAM(double, l, 0.5);
    };
    struct kernel_maternfivehalves {
        BO_PARAM(double, sigma_sq, 2.);
        BO_PARAM(double, l, 0.7);
    };
    struct kernel_squared_exp_ard {
        BO_PARAM(double, sigma_sq, 1.2);
        BO_PARAM(int, k, KK);
    };
    struct mean_constant {
        BO_PARAM(double, constant, 0.5);
    };
};
using PM = Params<false, 0>;
struct UserMean : public mean::BaseMean<PM> {
    V c;
    UserMean(size_t d = 1) : c(V::Constant(d, 0.75)) {}
    template <typename GP>
    V operator()(const V& x, const GP&) const
    {
        V r(c.size());
        for (int i = 0; i < c.size(); i++)
            r(i) = c(i) * x(0) + 0.25 * i;
        return r;
    }
    template <typename GP>
    Eigen::MatrixXd grad(const V& x, const GP&) const
    {
        Eigen::MatrixXd g = Eigen::MatrixXd::Zero(c.size(), c.size());
        for (int i = 0; i < c.size(); i++)
            g(i, i) = x(0);
        return g;
    }
    size_t h_params_size() const { return c.size(); }
    V h_params() const { return c; }
    void set_h_params(const V& p) { c = p; }
};
static long dataset = 1;
static V data_mean(long d, int n)
{
    V v(n);
    for (int i = 0; i < n; i++)
        v(i) = std::sin(1.7 * d + 0.9 * i) * 2;
    return v;
}
struct FakeGP { // what a mean function can ask
    int n;
    V mean_observation() const { return data_mean(dataset, n); }
    int dim_out() const { return n; }
    int nb_samples() const { return 3; }
};
// points: 1..8; 7 equals 1, 8 is outside of [0, 1]
static V point(long id, int d)
{
    if (id == 7)
        id = 1;
    V v(d);
    for (int i = 0; i < d; i++)
        v(i) = std::fmod(0.137 * id + 0.61 * i * id + 0.29 * i + 0.05, 1.);
    if (id == 8)
        v = v * 3. - V::Constant(d, 2.);
    return v;
}
// versions: 1 default; 2..11 fixed vectors, some of them extreme
static V version(long v, const V& def, bool noise)
{
    if (v == 1)
        return def;
    V p(def.size());
    for (int i = 0; i < p.size(); i++) {
        p(i) = (((v * 7 + i * 5) % 9) - 4) / 6.;
        if (v == 8)
            p(i) = p(i) * 4 + 0.01 * (i + 1);
        if (v == 9)
            p(i) = 0.;
        if (v >= 10) // far from the usual values
            p(i) *= 7.5;
    }
    if (noise)
        p(p.size() - 1) = v == 10 ? -6.2 : v == 11 ? 1.7 : -2. + 0.1 * v + 0.4 * p(p.size() - 1);
    return p;
}
static const int NV = 11;
struct Obj {
    std::string fam;
    int dim;
    bool noise;
    V def;
    virtual ~Obj() {}
    virtual V hp() const = 0;
    virtual size_t hps() const = 0;
    virtual void set(const V& p) = 0;
    virtual Obj* copy() const = 0;
    virtual void assign(const Obj& o) = 0;
    virtual void val(J& j, long x, long y, int a, int b) = 0;
    virtual void grad(J& j, long x, long y, int a, int b) = 0;
    virtual void more(J& j) {}
    V ver(long v) const { return version(v, def, noise); }
    bool is(const V& p, long v) const
    {
        V q = ver(v);
        return p.size() == q.size() && (p.size() == 0 || (p - q).cwiseAbs().maxCoeff() == 0);
    }
};
static bool near(R a, R b) { return std::isfinite((double)a) && fabsl(a - b) <= 1e-11L * (fabsl(a) + fabsl(b)) + 1e-14L; }
// the default vector is computed in double precision by the code: compared with a tolerance
template <typename K>
struct KObj : Obj {
    K k;
    gpref::Kernel kk;
    int ard = 0;
    V expected; // documented default: configured values
    KObj(int d, bool n, gpref::Kernel g, int a) : k(d), kk(g), ard(a)
    {
        dim = d;
        noise = n;
        if (kk == gpref::SE) {
            def = V::Zero(d + d * a + 1 + n);
            def(d + d * a) = std::log(std::sqrt(1.2));
        }
        else {
            def = V(2 + n);
            double s = kk == gpref::EXP ? 1.5 : kk == gpref::M32 ? 0.8 : 2., l = kk == gpref::EXP ? 0.6 : kk == gpref::M32 ? 0.5 : 0.7;
            def(0) = std::log(l);
            def(1) = std::log(std::sqrt(s));
        }
        if (n)
            def(def.size() - 1) = std::log(std::sqrt(0.02));
    }
    V hp() const { return k.h_params(); }
    size_t hps() const { return k.h_params_size(); }
    void set(const V& p) { k.set_h_params(p); }
    Obj* copy() const { return new KObj(*this); }
    void assign(const Obj& o) { *this = dynamic_cast<const KObj&>(o); }
    R noise_of(long v) const
    {
        V p = ver(v);
        return noise ? expl(2 * (R)p(p.size() - 1)) : 0.02L;
    }
    R ref(const V& p, long x, long y) const
    {
        VR h = gpref::vr(p);
        if (noise)
            h.pop_back();
        return gpref::kval(kk, ard, h, gpref::vr(point(x, dim)), gpref::vr(point(y, dim)));
    }
    void more(J& j)
    {
        std::vector<long> nv;
        for (long v = 1; v <= NV; v++)
            if (near(k.noise(), noise_of(v)))
                nv.push_back(v);
        j.li("nv", nv);
    }
    void val(J& j, long x, long y, int a, int b)
    {
        V p = point(x, dim), q = point(y, dim);
        double v = k(p, q, a, b), w = k(q, p, b, a);
        bool s = near(v, w);
        if (a == -1) // default arguments: different points
            s = s && k(p, q) == v;
        std::vector<long> wn, wo;
        for (long u = 1; u <= NV; u++) {
            R r = ref(ver(u), x, y);
            if (near(v, r))
                wo.push_back(u);
            if (near(v, r + noise_of(u) + 1e-8L))
                wn.push_back(u);
        }
        j.b("sym", s).li("wn", wn).li("wo", wo);
    }
    void grad(J& j, long x, long y, int a, int b)
    {
        V g = k.grad(point(x, dim), point(y, dim), a, b);
        if (a == -1 && (k.grad(point(x, dim), point(y, dim)) - g).cwiseAbs().sum() != 0)
            g *= -77;
        std::vector<long> wn, wo;
        for (long u = 1; u <= NV; u++) {
            V p = ver(u);
            bool ok = g.size() == p.size(), okn = ok;
            R sc = 0;
            for (int i = 0; i < p.size() && (ok || okn); i++) {
                volatile double h = 1. / 4096;
                auto f = [&](double s) {
                    V z = p;
                    z(i) += s;
                    return ref(z, x, y);
                };
                bool isn = noise && i == p.size() - 1;
                R d = isn ? 0 : (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * (R)h);
                sc = std::max(sc, fabsl(d));
                R t = 1e-6L * (ref(p, x, y) + sc + 1e-3L);
                if (isn)
                    t = 1e-11L;
                if (!(fabsl(g(i) - d) <= t))
                    ok = false;
                if (!(fabsl(g(i) - (isn ? 2 * noise_of(u) : d)) <= t))
                    okn = false;
            }
            if (ok)
                wo.push_back(u);
            if (okn)
                wn.push_back(u);
        }
        j.i("n", g.size()).li("wn", wn).li("wo", wo);
    }
};
template <typename M, int BASE, bool ARD> // BASE 0 null 1 const 2 data 3 user
struct MObj : Obj {
    M m;
    MObj(int d) : m(d)
    {
        dim = d;
        noise = false;
        int nb = BASE == 1 ? 1 : BASE == 3 ? d : 0, na = ARD ? d * (d + 1) : 0;
        def = V::Zero(na + nb);
        if (ARD)
            for (int i = 0; i < d; i++)
                def(i * (d + 1) + i) = 1;
        for (int i = 0; i < nb; i++)
            def(na + i) = BASE == 1 ? 0.5 : 0.75;
    }
    V hp() const { return get(m, 0); }
    template <typename T>
    static auto get(const T& t, int) -> decltype(t.h_params()) { return t.h_params(); }
    template <typename T>
    static V get(const T& t, ...) { return V(); }
    template <typename T>
    static auto put(T& t, const V& p, int) -> decltype(t.set_h_params(p)) { t.set_h_params(p); }
    template <typename T>
    static void put(T& t, const V& p, ...) {}
    size_t hps() const { return m.h_params_size(); }
    void set(const V& p) { put(m, p, 0); }
    Obj* copy() const { return new MObj(*this); }
    void assign(const Obj& o) { *this = dynamic_cast<const MObj&>(o); }
    VR ref(const V& p, long x, long d) const
    {
        VR b(dim, 0), r(dim);
        int na = ARD ? dim * (dim + 1) : 0;
        V dm = data_mean(d, dim);
        for (int o = 0; o < dim; o++)
            b[o] = BASE == 0 ? 0 : BASE == 1 ? (R)p(na) : BASE == 2 ? (R)dm(o) : (R)p(na + o) * point(x, 2)(0) + 0.25L * o;
        if (!ARD)
            return b;
        for (int o = 0; o < dim; o++) {
            r[o] = p(o * (dim + 1) + dim);
            for (int q = 0; q < dim; q++)
                r[o] += p(o * (dim + 1) + q) * b[q];
        }
        return r;
    }
    void val(J& j, long x, long y, int, int)
    {
        V v = m(point(x, 2), FakeGP{dim});
        std::vector<std::string> wd;
        for (long u = 1; u <= NV; u++)
            for (long d = 1; d <= 4; d++) {
                VR r = ref(ver(u), x, d);
                bool ok = v.size() == dim;
                for (int o = 0; o < dim && ok; o++)
                    ok = near(v(o), r[o]);
                if (ok)
                    wd.push_back(J::list(std::vector<long>{u, d}));
            }
        j.raw("wd", J::list(wd));
    }
    template <typename T>
    static auto gr(const T& t, const V& x, const FakeGP& g, int) -> decltype(Eigen::MatrixXd(t.grad(x, g))) { return t.grad(x, g); }
    template <typename T>
    static Eigen::MatrixXd gr(const T& t, const V& x, const FakeGP& g, ...) { return Eigen::MatrixXd(g.n, 0); }
    void grad(J& j, long x, long y, int, int)
    {
        std::vector<std::string> wd;
        if (def.size() == 0) {
            j.i("n", 0).raw("wd", "[]");
            return;
        }
        Eigen::MatrixXd g = gr(m, point(x, 2), FakeGP{dim}, 0);
        for (long u = 1; u <= NV; u++)
            for (long d = 1; d <= 4; d++) {
                V p = ver(u);
                bool ok = g.rows() == dim && g.cols() == p.size();
                for (int i = 0; i < p.size() && ok; i++) {
                    V a = p, b = p;
                    a(i) += 0.25; // the mean is of degree two at most: central differences are exact
                    b(i) -= 0.25;
                    VR fa = ref(a, x, d), fb = ref(b, x, d);
                    for (int o = 0; o < dim; o++)
                        ok = ok && fabsl(g(o, i) - (fa[o] - fb[o]) * 2) < 1e-9L;
                }
                if (ok)
                    wd.push_back(J::list(std::vector<long>{u, d}));
            }
        j.i("n", g.cols()).raw("wd", J::list(wd));
    }
};
template <bool N>
Obj* make_k(const std::string& f, int d)
{
    if (f == "exp")
        return new KObj<limbo::kernel::Exp<Params<N, 0>>>(d, N, gpref::EXP, 0);
    if (f == "m32")
        return new KObj<limbo::kernel::MaternThreeHalves<Params<N, 0>>>(d, N, gpref::M32, 0);
    if (f == "m52")
        return new KObj<limbo::kernel::MaternFiveHalves<Params<N, 0>>>(d, N, gpref::M52, 0);
    if (f == "se0")
        return new KObj<limbo::kernel::SquaredExpARD<Params<N, 0>>>(d, N, gpref::SE, 0);
    if (f == "se1")
        return new KObj<limbo::kernel::SquaredExpARD<Params<N, 1>>>(d, N, gpref::SE, 1);
    if (f == "se2")
        return new KObj<limbo::kernel::SquaredExpARD<Params<N, 2>>>(d, N, gpref::SE, 2);
    if (f == "se3")
        return new KObj<limbo::kernel::SquaredExpARD<Params<N, 3>>>(d, N, gpref::SE, 3);
    return nullptr;
}
Obj* make_m(const std::string& f, int d)
{
    if (f == "null")
        return new MObj<mean::NullFunction<PM>, 0, false>(d);
    if (f == "const")
        return new MObj<mean::Constant<PM>, 1, false>(d);
    if (f == "data")
        return new MObj<mean::Data<PM>, 2, false>(d);
    if (f == "ard-null")
        return new MObj<mean::FunctionARD<PM, mean::NullFunction<PM>>, 0, true>(d);
    if (f == "ard-const")
        return new MObj<mean::FunctionARD<PM, mean::Constant<PM>>, 1, true>(d);
    if (f == "ard-data")
        return new MObj<mean::FunctionARD<PM, mean::Data<PM>>, 2, true>(d);
    if (f == "ard-user")
        return new MObj<mean::FunctionARD<PM, UserMean>, 3, true>(d);
    return nullptr;
}
int main()
{
    std::vector<std::unique_ptr<Obj>> os;
    std::vector<std::string> t;
    while (mbv::next_line(t)) {
        auto n = [&](size_t i) { return std::stol(t.at(i)); };
        const std::string& e = t[0];
        J j(e);
        if (e == "new") {
            os.clear();
            dataset = 1;
        }
        else if (e == "make") {
            bool no = n(3);
            Obj* o = make_m(t[1], n(2));
            if (!o)
                o = no ? make_k<true>(t[1], n(2)) : make_k<false>(t[1], n(2));
            if (!o)
                mbv::die("unknown family " + t[1]);
            o->fam = t[1];
            os.emplace_back(o);
            j.t("fam", t[1]).i("dim", n(2)).b("noise", no);
        }
        else if (e == "data")
            dataset = n(1), j.i("d", n(1));
        else {
            Obj& o = *os.at(n(1) - 1);
            j.i("o", n(1));
            if (e == "set") {
                o.set(o.ver(n(2)));
                j.i("v", n(2));
            }
            else if (e == "copy")
                os.emplace_back(o.copy());
            else if (e == "assign") {
                os.at(n(2) - 1)->assign(o);
                j.i("p", n(2));
            }
            else if (e == "hp") {
                V p = o.hp();
                std::vector<long> vs;
                for (long u = NV; u >= 1 && p.size() == o.def.size(); u--)
                    if (o.is(p, u) || (u == 1 && p.size() && (p - o.def).cwiseAbs().maxCoeff() < 1e-12))
                        vs.push_back(u);
                j.i("size", o.hps()).i("n", p.size()).li("vs", vs);
                o.more(j);
            }
            else if (e == "val") {
                j.i("i", n(4)).i("j", n(5));
                o.val(j, n(2), n(3), n(4), n(5));
            }
            else if (e == "grad") {
                j.i("i", n(4)).i("j", n(5));
                o.grad(j, n(2), n(3), n(4), n(5));
            }
            else
                mbv::die("unknown command " + e);
        }
        j.emit();
    }
}
