// Replays scripts on model::SparsifiedGP. new max dim pos... | compute k p... | add p | recompute | query | copy | reload
#include "common.hpp"
#include "gpref.hpp"
#include <limbo/limbo.hpp>
#include <limbo/model/sparsified_gp.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <memory>
#include <set>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;
struct Params {
    struct kernel {
        BO_PARAM(double, noise, 0.02);
        BO_PARAM(bool, optimize_noise, false);
    };
    struct kernel_maternfivehalves {
        BO_PARAM(double, sigma_sq, 2.);
        BO_PARAM(double, l, 0.7);
    };
    struct model_sparse_gp {
        BO_DYN_PARAM(int, max_points);
    };
};
BO_DECLARE_DYN_PARAM(int, Params::model_sparse_gp, max_points);
using GP = model::SparsifiedGP<Params, limbo::kernel::MaternFiveHalves<Params>, mean::Data<Params>, model::gp::NoLFOpt<Params>>;
static std::vector<V> pos;
static int dim, version;
static V obs(long p)
{
    V v(2);
    v << 2. * std::sin(1.3 * p) + 0.03125 * p, p;
    return v;
}
static void observe(J& j, const GP& g)
{
    std::vector<long> kept;
    bool pair = true, pred = true;
    auto ys = g.observations();
    pair = ys.size() == g.samples().size();
    for (size_t i = 0; i < ys.size(); i++) {
        long p = ys[i].size() == 2 ? std::lround(ys[i](1)) : -1;
        kept.push_back(p);
        pair = pair && p >= 1 && p <= (long)pos.size() && (ys[i] - obs(p)).norm() == 0 && g.samples()[i].size() == dim && (g.samples()[i] - pos[p - 1]).norm() == 0;
    }
    if (pair && !ys.empty()) {
        gpref::GP r;
        r.kern = gpref::M52;
        r.khp = gpref::vr(g.kernel_function().h_params());
        r.noise = 0.02L;
        r.dout = 2;
        gpref::VR m(2, 0);
        for (auto& x : g.samples())
            r.X.push_back(gpref::vr(x));
        for (auto& y : ys) {
            r.Y.push_back(gpref::vr(y));
            for (int o = 0; o < 2; o++)
                m[o] += r.Y.back()[o] / ys.size();
        }
        r.mean = [=](const gpref::VR&) { return m; };
        for (int q = 0; q < 3; q++) {
            V x = V::Constant(dim, 0.1 + 0.35 * q);
            if (q == 2)
                x = g.samples()[0];
            auto p = r.predict(gpref::vr(x));
            V mu;
            double s;
            std::tie(mu, s) = g.query(x);
            gpref::R t = gpref::tolerance(p.cond);
            if (t < 0)
                continue;
            for (int o = 0; o < 2; o++)
                pred = pred && gpref::close(mu(o), p.mu[o], t);
            pred = pred && gpref::close(s, p.var, t) && (g.mu(x) - mu).norm() < 1e-9 && std::abs(g.sigma(x) - s) < 1e-9;
        }
    }
    j.li("kept", kept).b("pair", pair).b("pred", pred).i("n", g.nb_samples());
}
int main()
{
    std::unique_ptr<GP> g;
    std::vector<std::string> t;
    while (mbv::next_line(t)) {
        auto n = [&](size_t i) { return std::stol(t.at(i)); };
        const std::string& e = t[0];
        J j(e);
        if (e == "new") {
            Params::model_sparse_gp::set_max_points(n(1));
            dim = n(2);
            pos.clear();
            version = 0;
            std::vector<std::string> ps;
            for (size_t k = 3; k + dim <= t.size(); k += dim) {
                V v(dim);
                std::vector<long> c;
                for (int i = 0; i < dim; i++)
                    c.push_back(n(k + i)), v(i) = c.back() / 16.;
                pos.push_back(v);
                ps.push_back(J::list(c));
            }
            j.i("max", n(1)).i("dim", dim).raw("pos", J::list(ps));
            if (n(1) % 2)
                g.reset(new GP());
            else
                g.reset(new GP(dim, 2));
        }
        else {
            if (e == "compute" || e == "repeat") {
                std::vector<V> x, y;
                std::vector<long> s;
                for (size_t k = 1; k < t.size(); k++) {
                    s.push_back(n(k));
                    x.push_back(pos.at(s.back() - 1));
                    y.push_back(obs(s.back()));
                }
                j.li("s", s);
                if (e == "repeat") {
                    std::set<std::vector<long>> all;
                    GP o; // (without the kernel)
                    for (int r = 0; r < 400; r++) {
                        o.compute(x, y, false);
                        std::vector<long> k;
                        for (auto& v : o.observations())
                            k.push_back(v.size() == 2 ? std::lround(v(1)) : -1);
                        all.insert(k);
                    }
                    std::vector<std::string> a;
                    for (auto& k : all)
                        a.push_back(J::list(k));
                    j.raw("all", J::list(a));
                }
                g->compute(x, y);
            }
            else if (e == "add") {
                g->add_sample(pos.at(n(1) - 1), obs(n(1)));
                j.i("p", n(1));
            }
            else if (e == "recompute") {
                version++;
                V h(2);
                h << -0.3 - 0.2 * (version % 3), 0.1 * (version % 4);
                g->kernel_function().set_h_params(h);
                g->recompute(version % 2, true);
            }
            else if (e == "copy") {
                std::unique_ptr<GP> c(new GP(*g));
                g->add_sample(pos[0], obs(1)); // the copy must not see it
                g = std::move(c);
            }
            else if (e == "reload") {
                g->save(serialize::BinaryArchive("sparse_model"));
                g.reset(new GP());
                g->load(serialize::BinaryArchive("sparse_model"), version % 2);
            }
            else if (e != "query")
                mbv::die("unknown command " + e);
            observe(j, *g);
        }
        j.emit();
    }
}
