// GridSearch, ParallelRepeater and Chained with scripted values / inner optimisers.
#include "common.hpp"
#include <atomic>
#include <limits>
#include <set>
#include <boost/optional.hpp>
#include <Eigen/Core>
#include <limbo/tools/macros.hpp>
#include <limbo/tools/parallel.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/chained.hpp>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;
struct Params {
    struct opt_gridsearch {
        BO_DYN_PARAM(int, bins);
    };
    struct opt_parallelrepeater {
        BO_DYN_PARAM(int, repeats);
        BO_DYN_PARAM(double, epsilon);
    };
};
BO_DECLARE_DYN_PARAM(int, Params::opt_gridsearch, bins);
BO_DECLARE_DYN_PARAM(int, Params::opt_parallelrepeater, repeats);
BO_DECLARE_DYN_PARAM(double, Params::opt_parallelrepeater, epsilon);
static std::vector<long> vals;
static double scale = 1;
static double value(long v)
{
    const double inf = std::numeric_limits<double>::infinity();
    return v == 99 ? std::nan("") : v == -100 ? -inf : v == -50 ? -1e300 : v == 50 ? 1e300 : v * scale;
}
static int bins;
static std::vector<long> idx(const V& x)
{
    std::vector<long> r;
    for (int i = 0; i < x.size(); i++) {
        double v = x(i) * bins;
        r.push_back(std::abs(v - std::round(v)) < 1e-9 ? std::lround(v) : -1);
    }
    return r;
}
struct GF {
    opt::eval_t operator()(const V& x, bool) const
    {
        auto p = idx(x);
        J("eval").li("p", p).emit();
        long rank = 0, m = 1;
        for (long i : p) {
            rank += i * m;
            m *= bins + 1;
        }
        if (rank < 0 || rank >= (long)vals.size())
            rank = 0;
        return opt::no_grad(value(vals[rank]));
    }
};
// inner optimiser of the repeater: result k is the point (1000 + k, ...)
static std::atomic<int> counter;
static V given;
static double eps;
static std::mutex mx;
static std::set<std::vector<double>> starts;
struct RF {
    opt::eval_t operator()(const V& x, bool) const
    {
        int k = std::lround(x(0)) - 1000;
        return opt::no_grad(k >= 1 && k <= (int)vals.size() ? value(vals[k - 1]) : std::nan(""));
    }
};
struct Inner {
    template <typename F>
    V operator()(const F& f, const V& s, bool b) const
    {
        int k = ++counter;
        bool near = s.size() == given.size();
        for (int i = 0; near && i < s.size(); i++)
            near = std::abs(s(i) - given(i)) <= eps * (1 + 1e-9) + 1e-15;
        {
            std::lock_guard<std::mutex> g(mx);
            starts.insert(std::vector<double>(s.data(), s.data() + s.size()));
        }
        J("start").i("i", k).b("near", near).b("b", b).emit();
        return V::Constant(s.size(), 1000. + k);
    }
};
static int stage;
template <int I>
struct St {
    template <typename F>
    V operator()(const F& f, const V& s, bool b) const
    {
        long c = std::lround(s(0));
        for (int i = 0; i < s.size(); i++)
            if (s(i) != c)
                c = -1;
        J("stage").i("i", I).i("c", c).b("b", b).emit();
        return V::Constant(s.size(), vals[I]);
    }
};
int main()
{
    std::vector<std::string> t;
    int turn = 0;
    while (mbv::next_line(t)) { // kind a b json values...
        vals.clear();
        for (size_t i = 4; i < t.size(); i++)
            vals.push_back(std::stol(t[i]));
        J("new").raw("cfg", t[3]).emit();
        int a = std::stoi(t[1]), b = std::stoi(t[2]);
        turn++;
        const double scales[] = {1., 1e-7, 1e-14, 1e7, 0.5};
        scale = scales[(turn / 2) % 5]; // only the order of the values matters
        if (t[0] == "grid") {
            bins = a;
            Params::opt_gridsearch::set_bins(a);
            opt::GridSearch<Params> g;
            J("greturn").li("p", idx(g(GF(), V::Constant(b, 0.3 * (turn % 5)), true))).emit();
        }
        else if (t[0] == "repeat") {
            counter = 0;
            starts.clear();
            eps = turn % 3 ? 0.01 : 0.5;
            Params::opt_parallelrepeater::set_repeats(a);
            Params::opt_parallelrepeater::set_epsilon(eps);
            given = V::Constant(1 + turn % 3, 0.2 * (turn % 6));
            opt::ParallelRepeater<Params, Inner> r;
            V v = r(RF(), given, b == 1);
            long k = v.size() == given.size() && v(0) > 900 ? std::lround(v(0)) - 1000 : (v == given ? 0 : -1);
            J("rreturn").i("i", k).i("distinct", starts.size()).emit();
        }
        else {
            V s = V::Constant(1 + turn % 3, vals[0]);
            V r;
            RF f;
            bool bd = b == 1;
            if (a == 1)
                r = opt::Chained<Params, St<1>>()(f, s, bd);
            else if (a == 2)
                r = opt::Chained<Params, St<1>, St<2>>()(f, s, bd);
            else if (a == 3)
                r = opt::Chained<Params, St<1>, St<2>, St<3>>()(f, s, bd);
            else
                r = opt::Chained<Params, St<1>, St<2>, St<3>, St<4>>()(f, s, bd);
            bool ok = r.size() == s.size();
            for (int i = 0; ok && i < r.size(); i++)
                ok = r(i) == r(0);
            J("creturn").i("c", ok ? std::lround(r(0)) : -1).emit();
        }
    }
    return 0;
}
