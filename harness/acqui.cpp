// Evaluates the real acquisition functions on a model with given predictions.
// new k din dout npts <mu: npts*dout> <sd: npts> <cmu> <csd> | make kind it | gain x <mu> <sd> | cgain x <mu> <sd> | eval o a x
#include "common.hpp"
#include <limbo/limbo.hpp>
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/acqui/ucb_imgpo.hpp>
#include <functional>
#include <memory>
using namespace limbo;
using mbv::J;

template <int K>
struct Params {
    struct acqui_ucb { BO_PARAM(double, alpha, K == 0 ? 0. : K == 1 ? 0.5 : 2.25); };
    struct acqui_gpucb { BO_PARAM(double, delta, K == 0 ? 0.1 : K == 1 ? 0.5 : 0.9); };
    struct acqui_ei { BO_PARAM(double, jitter, K == 0 ? 0. : K == 1 ? 0.25 : 0.5); };
    struct acqui_ucb_imgpo { BO_PARAM(double, nu, K == 0 ? 0.05 : K == 1 ? 0.2 : 0.5); };
    struct acqui_eci { BO_PARAM(double, jitter, K == 0 ? 0. : K == 1 ? 0.25 : 0.5); };
};
struct Model {
    int din, dout, np;
    std::vector<Eigen::VectorXd> xs, ys, mus;
    std::vector<double> sds;
    int at(const Eigen::VectorXd& v) const
    {
        if (v.size() != din)
            mbv::die("wrong dimension");
        return int(v(0) * 100 + 0.5) - 1;
    }
    Eigen::VectorXd point(int i) const { return Eigen::VectorXd::Constant(din, (i + 1) / 100.); }
    int dim_in() const { return din; }
    int dim_out() const { return dout; }
    Eigen::VectorXd mu(const Eigen::VectorXd& v) const { return mus[at(v)]; }
    double sigma(const Eigen::VectorXd& v) const { return sds[at(v)] * sds[at(v)]; }
    std::tuple<Eigen::VectorXd, double> query(const Eigen::VectorXd& v) const { return std::make_tuple(mu(v), sigma(v)); }
    const std::vector<Eigen::VectorXd>& samples() const { return xs; }
    std::vector<Eigen::VectorXd> observations() const { return ys; }
    Eigen::MatrixXd observations_matrix() const
    {
        Eigen::MatrixXd m(ys.size(), dout);
        for (size_t i = 0; i < ys.size(); i++)
            m.row(i) = ys[i];
        return m;
    }
    int nb_samples() const { return xs.size(); }
    void gain(int x)
    {
        xs.push_back(point(x));
        // observations are not what the model predicts
        ys.push_back(Eigen::VectorXd::Constant(dout, 7. * (x % 2 ? 1 : -1)));
    }
};
struct Agg {
    using result_type = double;
    std::string a;
    double operator()(const Eigen::VectorXd& y) const
    {
        return a == "first" ? y(0) : a == "sum" ? y.sum() : a == "neg" ? -y(0) : y(y.size() - 1);
    }
};
struct Obj {
    std::function<opt::eval_t(const Eigen::VectorXd&, const Agg&)> f;
    int din, dout;
    bool ei;
};
template <typename A>
Obj wrap(std::shared_ptr<A> a)
{
    Obj o;
    o.din = a->dim_in();
    o.dout = a->dim_out();
    o.f = [a](const Eigen::VectorXd& v, const Agg& g) { return (*a)(v, g, false); };
    return o;
}
template <typename P>
Obj make(const std::string& kind, const Model& m, const Model& c, int it)
{
    if (kind == "ucb")
        return wrap(std::make_shared<acqui::UCB<P, Model>>(m, it));
    if (kind == "gpucb")
        return wrap(std::make_shared<acqui::GP_UCB<P, Model>>(m, it));
    if (kind == "ei")
        return wrap(std::make_shared<acqui::EI<P, Model>>(m, it));
    if (kind == "imgpo") {
        auto a = std::make_shared<acqui::experimental::UCB_IMGPO<P, Model>>(m, it + 1);
        Obj o;
        o.din = a->dim_in();
        o.dout = a->dim_out();
        o.f = [a](const Eigen::VectorXd& v, const Agg& g) { return opt::no_grad((*a)(v, g)); };
        return o;
    }
    return wrap(std::make_shared<experimental::acqui::ECI<P, Model, Model>>(m, c, it));
}
std::vector<std::string> tok;
size_t pos;
long num() { return std::stol(tok.at(pos++)); }
std::string table(Model& m, bool& first)
{
    std::vector<std::string> mu;
    std::vector<long> sd;
    m.mus.clear();
    m.sds.clear();
    for (int i = 0; i < m.np; i++) {
        std::vector<long> r;
        Eigen::VectorXd y(m.dout);
        for (int j = 0; j < m.dout; j++)
            r.push_back(num()), y(j) = r.back();
        mu.push_back(J::list(r));
        m.mus.push_back(y);
    }
    for (int i = 0; i < m.np; i++)
        sd.push_back(num()), m.sds.push_back(sd.back() == 4 ? 1e-3 : sd.back());
    return J::list(mu) + "|" + J::list(sd);
}
int main()
{
    Model m, c;
    std::vector<Obj> objs;
    int k = 0;
    bool f;
    while (mbv::next_line(tok)) {
        std::string e = tok[0];
        pos = 1;
        auto tab = [&](J& j, Model& mm, const char* a, const char* b) {
            std::string s = table(mm, f);
            size_t p = s.find('|');
            j.raw(a, s.substr(0, p)).raw(b, s.substr(p + 1));
        };
        if (e == "new") {
            J j("new");
            m = Model();
            c = Model();
            objs.clear();
            k = num();
            m.din = c.din = num();
            m.dout = c.dout = num();
            m.np = c.np = num();
            j.raw("cfg", "{\"k\":" + std::to_string(k) + ",\"din\":" + std::to_string(m.din) + ",\"dout\":" + std::to_string(m.dout) + "}");
            tab(j, m, "mu", "sd");
            tab(j, c, "cmu", "csd");
            j.emit();
        }
        else if (e == "make") {
            std::string kind = tok[pos++];
            int it = num();
            Obj ob = (k == 1 ? make<Params<0>>(kind, m, c, it) : k == 2 ? make<Params<1>>(kind, m, c, it) : make<Params<2>>(kind, m, c, it));
            ob.ei = kind == "ei" || kind == "eci";
            objs.push_back(ob);
            J("make").t("kind", kind).i("it", it).li("dims", {objs.back().din, objs.back().dout}).emit();
        }
        else if (e == "gain" || e == "cgain") {
            Model& mm = e == "gain" ? m : c;
            int x = num();
            J j(e);
            j.i("x", x);
            tab(j, mm, "mu", "sd");
            mm.gain(x - 1);
            j.emit();
        }
        else if (e == "eval") {
            int o = num();
            std::string a = tok[pos++];
            int x = num();
            opt::eval_t r = objs.at(o - 1).f(m.point(x - 1), Agg{a});
            double v = opt::fun(r);
            long q = std::isfinite(v) && std::abs(v) < 1e5 ? std::lround(v * 10000) : 2000000000;
            bool neg = objs[o - 1].ei && v < -1e-12;
            J("eval").i("o", o).t("a", a).i("x", x).i("v", q).b("neg", neg).b("grad", bool(std::get<1>(r))).emit();
        }
        else
            mbv::die("unknown command " + e);
    }
}
