// Pareto sets, non-dominated filter, hypervolumes, certain expected improvements, on growing sets of points.
#include "common.hpp"
#include <deque>
#include <set>
#include <algorithm>
#include <limbo/limbo.hpp>
#include <limbo/experimental/tools/pareto.hpp>
#include <limbo/experimental/stat/pareto_front.hpp>
#include <limbo/experimental/stat/hyper_volume.hpp>
#include <hv/hypervol.h>
#include <ehvi/ehvi_hvol.h>
#include <ehvi/ehvi_calculations.h>
#include <ehvi/ehvi_sliceupdate.h>
using mbv::J;
using V = Eigen::VectorXd;
static long integer(double v) { return std::abs(v - std::round(v)) < 1e-3 ? std::lround(v) : -1; }
struct Params {
    struct bayes_opt_bobase : public limbo::defaults::bayes_opt_bobase {
        BO_PARAM(bool, stats_enabled, true);
    };
    struct stat_hyper_volume {
        BO_PARAM_ARRAY(double, ref, 3, 7, 2, 5, 1, 4);
    };
};
// what the statistics need of an optimiser
struct BO {
    std::vector<V> s, o;
    std::string dir;
    int it = 0;
    const std::vector<V>& samples() const { return s; }
    const std::vector<V>& observations() const { return o; }
    bool stats_enabled() const { return true; }
    int current_iteration() const { return it; }
    int total_iterations() const { return it; }
    const std::string& res_dir() const { return dir; }
};
int main()
{
    std::vector<std::string> t;
    std::vector<V> pts;
    int d = 0, traces = 0;
    double scale = 1, shift = 0; // dominance does not depend on them
    auto moved = [&](const V& v) -> V { return ((v.array() - shift) * scale).matrix(); };
    std::shared_ptr<limbo::experimental::stat::HyperVolume<Params>> hvs;
    BO bo;
    auto number = [&](const V& o, std::vector<char>& used) -> long {
        for (size_t i = 0; i < pts.size(); i++)
            if (!used[i] && pts[i] == o) {
                used[i] = 1;
                return i + 1;
            }
        return 0;
    };
    while (mbv::next_line(t)) {
        if (t[0] == "new") {
            d = std::stoi(t[1]);
            const double scales[] = {1, 1e-10, 1e12, 1, 1e-150}, shifts[] = {0, 0, 0, 7, 2};
            scale = scales[std::stoi(t[2])];
            shift = shifts[std::stoi(t[2])];
            pts.clear();
            bo = BO();
            bo.dir = "d" + std::to_string(traces++);
            if (system(("mkdir " + bo.dir).c_str()))
                mbv::die("mkdir");
            hvs = std::make_shared<limbo::experimental::stat::HyperVolume<Params>>();
            J("new").i("d", d).emit();
            continue;
        }
        // add v[d] cand[d] hi[d]
        V v(d), c(d), hi(d);
        std::vector<long> lv, lc, lh;
        for (int i = 0; i < d; i++) {
            v(i) = std::stoi(t[1 + i]);
            c(i) = std::stoi(t[1 + d + i]);
            hi(i) = std::stoi(t[1 + 2 * d + i]);
            lv.push_back(v(i));
            lc.push_back(c(i));
            lh.push_back(hi(i));
        }
        pts.push_back(v);
        J("add").li("v", lv).emit();
        // Pareto set; the entries carry their number
        using P = std::tuple<V, V, V>;
        std::vector<P> in;
        for (size_t i = 0; i < pts.size(); i++)
            in.push_back(P(V::Constant(1, i + 1), moved(pts[i]), V::Constant(1, 10 * (i + 1))));
        auto q = pareto::pareto_set<1>(in);
        std::vector<long> ids;
        for (auto& x : q) {
            long k = std::lround(std::get<0>(x)(0));
            ids.push_back(k >= 1 && k <= (long)pts.size() && std::get<1>(x) == moved(pts[k - 1]) && std::get<2>(x)(0) == 10 * k ? k : 0);
        }
        J("pareto").li("q", ids).emit();
        // the same through the statistics
        bo.s.push_back(V::Constant(1, pts.size()));
        V o = v;
        for (int i = 0; i < d; i++)
            o(i) -= Params::stat_hyper_volume::ref(i);
        bo.o.push_back(o);
        limbo::experimental::stat::ParetoFront<Params> pf;
        pf(bo, limbo::FirstElem());
        {
            std::ifstream f(bo.dir + "/pareto_front_" + std::to_string(bo.it) + ".dat");
            std::string ln;
            ids.clear();
            while (std::getline(f, ln)) {
                std::istringstream is(ln);
                long k = 0;
                is >> k;
                bool ok = k >= 1 && k <= (long)pts.size();
                for (int i = 0; ok && i < d; i++) {
                    double z;
                    ok = bool(is >> z) && z == bo.o[k - 1](i);
                }
                ids.push_back(ok ? k : 0);
            }
            J("pareto").li("q", ids).emit();
        }
        (*hvs)(bo, limbo::FirstElem());
        {
            std::ifstream f(bo.dir + "/hypervolume.dat");
            std::string ln, lastl;
            int n = 0;
            while (std::getline(f, ln)) {
                lastl = ln;
                n++;
            }
            std::istringstream is(lastl);
            int it = -1;
            double h = -1;
            is >> it >> h;
            J("hv").t("by", "stat").i("v", n == (int)pts.size() && it == bo.it ? integer(h) : -2).emit();
        }
        bo.it++;
        // filter and volume (the array is reordered in place)
        std::vector<std::vector<double>> store;
        for (auto& p : pts)
            store.push_back(std::vector<double>(p.data(), p.data() + d));
        std::vector<double*> front;
        for (auto& x : store)
            front.push_back(x.data());
        int n = FilterNondominatedSet(front.data(), front.size(), d);
        ids.clear();
        std::vector<char> used(pts.size(), 0);
        bool perm = true;
        for (size_t i = 0; i < front.size(); i++) {
            size_t k = 0;
            while (k < store.size() && store[k].data() != front[i])
                k++;
            if (k == store.size() || used[k])
                perm = false;
            else {
                used[k] = 1;
                if ((int)i < n)
                    ids.push_back(k + 1);
            }
        }
        J("filter").li("q", ids).b("perm", perm).emit();
        J("hv").t("by", "filtered").i("v", integer(CalculateHypervolume(front.data(), n, d))).emit();
        front.clear();
        for (auto& x : store)
            front.push_back(x.data());
        J("hv").t("by", "all").i("v", integer(CalculateHypervolume(front.data(), front.size(), d))).emit();
        // src/ehvi works on distinct non-dominated points
        if (d == 2 || d == 3) {
            std::vector<individual> store2;
            std::set<std::vector<double>> uniq;
            for (auto& x : q) {
                const V& p = pts.at(std::lround(std::get<0>(x)(0)) - 1);
                std::vector<double> y(p.data(), p.data() + d);
                if (uniq.insert(y).second) {
                    individual in1;
                    in1.f[2] = 0;
                    for (int i = 0; i < d; i++)
                        in1.f[i] = y[i];
                    store2.push_back(in1);
                }
            }
            std::deque<individual*> P2;
            for (auto& x : store2)
                P2.push_back(&x);
            double r[3] = {0, 0, 0}, mu[3], s[3] = {1e-6, 1e-6, 1e-6}, top[3];
            for (int i = 0; i < d; i++) {
                mu[i] = c(i);
                top[i] = hi(i);
            }
            auto gain = [&](const std::string& by, double g) { J("gain").t("by", by).li("cand", lc).i("v", integer(g)).emit(); };
            if (d == 2) {
                J("hv").t("by", "calculateS").i("v", integer(calculateS(P2, r))).emit();
                gain("ehvi2d", ehvi2d(P2, r, mu, s));
            }
            else {
                auto Pz = P2;
                std::stable_sort(Pz.begin(), Pz.end(), zcomparator);
                J("hvbox").t("by", "hvol3d").li("hi", lh).i("v", integer(hvol3d(Pz, r, top))).emit();
                gain("2term", ehvi3d_2term(P2, r, mu, s));
                gain("5term", ehvi3d_5term(P2, r, mu, s));
                gain("8term", ehvi3d_8term(P2, r, mu, s));
                gain("slice", ehvi3d_sliceupdate(P2, r, mu, s));
            }
        }
    }
    return 0;
}
