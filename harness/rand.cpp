// Random generators: interleaved draws, reseeds, resets, changes of bounds; vectors, hypercubes, threads.
#include "common.hpp"
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <Eigen/Core>
#include <limbo/tools/random_generator.hpp>
using namespace limbo;
using mbv::J;
static std::string bits(double v)
{
    unsigned long u;
    memcpy(&u, &v, 8);
    char b[20];
    snprintf(b, 20, "%lx", u);
    return b;
}
struct G {
    char t = 0;
    double a, b;
    std::shared_ptr<tools::rgen_double_t> d;
    std::shared_ptr<tools::rgen_int_t> i;
    std::shared_ptr<tools::rgen_gauss_t> g;
    double draw() { return t == 'd' ? d->rand() : t == 'i' ? i->rand() : g->rand(); }
    Eigen::VectorXd vec(int n) { return t == 'd' ? tools::random_vec(n, *d) : t == 'i' ? tools::random_vec(n, *i) : tools::random_vec(n, *g); }
};
int main()
{
    G gs[5];
    std::vector<std::string> t;
    std::set<std::vector<double>> old;
    while (mbv::next_line(t)) {
        auto I = [&](int k) { return std::stoi(t[k]); };
        if (t[0] == "new") {
            for (auto& g : gs)
                g = G();
            J("new").emit();
        }
        else if (t[0] == "make") { // g t a b seed
            G& g = gs[I(1)];
            g = G();
            g.t = t[2][0];
            g.a = I(3);
            g.b = I(4);
            int s = I(5);
            if (g.t == 'd')
                g.d = s == -1 && I(1) % 2 ? std::make_shared<tools::rgen_double_t>(g.a, g.b) : std::make_shared<tools::rgen_double_t>(g.a, g.b, s);
            else if (g.t == 'i')
                g.i = std::make_shared<tools::rgen_int_t>(I(3), I(4), s);
            else
                g.g = std::make_shared<tools::rgen_gauss_t>(g.a, g.b, s);
            J("make").i("g", I(1)).t("t", t[2]).i("a", I(3)).i("b", I(4)).i("seed", s).emit();
        }
        else if (t[0] == "seed") {
            G& g = gs[I(1)];
            if (g.t == 'd')
                g.d->seed(I(2));
            else if (g.t == 'i')
                g.i->seed(I(2));
            else
                g.g->seed(I(2));
            J("seed").i("g", I(1)).i("seed", I(2)).emit();
        }
        else if (t[0] == "reset") {
            G& g = gs[I(1)];
            if (g.t == 'd')
                g.d->reset();
            else if (g.t == 'i')
                g.i->reset();
            else
                g.g->reset();
            J("reset").i("g", I(1)).emit();
        }
        else if (t[0] == "param") {
            G& g = gs[I(1)];
            g.a = I(2);
            g.b = I(3);
            if (g.t == 'd')
                g.d->param(tools::rdist_double_t::param_type(g.a, g.b));
            else if (g.t == 'i')
                g.i->param(tools::rdist_int_t::param_type(I(2), I(3)));
            else
                g.g->param(tools::rdist_gauss_t::param_type(g.a, g.b));
            J("param").i("g", I(1)).i("a", I(2)).i("b", I(3)).emit();
        }
        else if (t[0] == "draw" || t[0] == "vec") {
            G& g = gs[I(1)];
            int n = I(2);
            Eigen::VectorXd v(n);
            if (t[0] == "vec")
                v = g.vec(n);
            else
                for (int k = 0; k < n; k++)
                    v(k) = g.draw();
            if (v.size() != n)
                J("badsize").emit();
            for (int k = 0; k < v.size(); k++)
                J("draw").i("g", I(1)).t("v", bits(v(k))).t("c", v(k) >= g.a && v(k) <= g.b ? "in" : "out").emit();
        }
        else if (t[0] == "vector") {
            Eigen::VectorXd v = I(2) ? (I(1) % 2 ? tools::random_vector(I(1)) : tools::random_vector_bounded(I(1))) : tools::random_vector(I(1), false);
            std::vector<std::string> c;
            for (int k = 0; k < v.size(); k++)
                c.push_back(J::str(v(k) >= 0 && v(k) <= 1 ? "in" : "out"));
            bool fresh = old.insert(std::vector<double>(v.data(), v.data() + v.size())).second;
            std::set<double> ds(v.data(), v.data() + v.size());
            J("vector").i("n", I(1)).i("distinct", ds.size()).b("bounded", I(2)).raw("c", J::list(c)).b("fresh", fresh).emit();
        }
        else if (t[0] == "lhs") {
            int d = I(1), n = I(2);
            Eigen::MatrixXd H = tools::random_lhs(d, n);
            std::vector<std::string> cols;
            for (int j = 0; j < H.cols(); j++) {
                std::vector<long> s;
                for (int i = 0; i < H.rows(); i++)
                    s.push_back(H(i, j) >= 0 && H(i, j) <= 1 ? std::min<long>(n - 1, std::floor(H(i, j) * n)) : -1);
                cols.push_back(J::list(s));
            }
            std::set<double> ds(H.data(), H.data() + H.size());
            J("lhs").i("distinct", ds.size()).i("d", d).i("n", n).raw("s", J::list(cols)).emit();
        }
        else if (t[0] == "cover") {
            tools::rgen_int_t g(I(1), I(1) + 3, I(2));
            std::map<long, long> s;
            for (int k = 0; k < 400; k++)
                s[g.rand()]++;
            std::vector<long> vs, ns;
            for (auto& x : s)
                vs.push_back(x.first), ns.push_back(x.second);
            J("cover").i("a", I(1)).li("s", vs).li("n", ns).emit();
        }
        else if (t[0] == "stats") { // t a b seed
            const int n = 10000;
            double a = I(2), b = I(3), lo = 0, hi = 1, sum = 0, sq = 0;
            bool in = true;
            std::vector<double> v;
            if (t[1] == "double") {
                tools::rgen_double_t g(a, b, I(4));
                lo = a, hi = b;
                for (int k = 0; k < n; k++)
                    v.push_back(g.rand());
            }
            else if (t[1] == "gauss") {
                tools::rgen_gauss_t g(a, b, I(4));
                for (int k = 0; k < n; k++)
                    v.push_back(g.rand());
            }
            else
                for (int k = 0; k < n / 10; k++) {
                    Eigen::VectorXd x = tools::random_vector(10, t[1] == "bounded");
                    v.insert(v.end(), x.data(), x.data() + 10);
                }
            bool uni = t[1] == "double" || t[1] == "bounded";
            double m = uni ? (lo + hi) / 2 : t[1] == "gauss" ? a : 0., sd = uni ? (hi - lo) / std::sqrt(12.) : t[1] == "gauss" ? b : 10.;
            for (double x : v) {
                sum += (x - m) / sd, sq += (x - m) * (x - m) / sd / sd;
                in = in && x >= lo && x <= hi;
            }
            J("stats").t("t", t[1]).i("mean", std::lround(100 * sum / n)).i("dev", std::lround(100 * std::sqrt(sq / n))).t("c", in ? "in" : "out").emit();
        }
        else if (t[0] == "threads") {
            int k = I(1);
            std::set<std::vector<double>> vs;
            std::mutex m;
            std::vector<std::thread> th;
            for (int i = 0; i < k; i++)
                th.emplace_back([&]() {
                    Eigen::VectorXd v = tools::random_vector(3), w = tools::random_vector(3, false);
                    Eigen::MatrixXd h = tools::random_lhs(2, 3);
                    std::lock_guard<std::mutex> g(m);
                    vs.insert(std::vector<double>(v.data(), v.data() + 3));
                    vs.insert(std::vector<double>(w.data(), w.data() + 3));
                    vs.insert(std::vector<double>(h.data(), h.data() + 6));
                });
            for (auto& x : th)
                x.join();
            J("threads").i("k", k).i("distinct", vs.size()).emit();
        }
        else
            mbv::die("unknown " + t[0]);
    }
    return 0;
}
