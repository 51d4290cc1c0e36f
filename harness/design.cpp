// Initial designs, through BOptimizer with no iterations.
#include "common.hpp"
#include <set>
#include <limbo/limbo.hpp>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;
struct PT {
    struct bayes_opt_boptimizer : public defaults::bayes_opt_boptimizer {
    };
    struct bayes_opt_bobase : public defaults::bayes_opt_bobase {
        BO_PARAM(int, stats_enabled, false);
        BO_PARAM(bool, bounded, true);
    };
    struct stop_maxiterations {
        BO_PARAM(int, iterations, 0);
    };
    struct init_randomsampling {
        BO_DYN_PARAM(int, samples);
    };
    struct init_lhs {
        BO_DYN_PARAM(int, samples);
    };
    struct init_randomsamplinggrid {
        BO_DYN_PARAM(int, samples);
        BO_DYN_PARAM(int, bins);
    };
    struct init_gridsampling {
        BO_DYN_PARAM(int, bins);
    };
    struct kernel : public defaults::kernel {
    };
    struct kernel_maternfivehalves : public defaults::kernel_maternfivehalves {
    };
    struct acqui_ucb : public defaults::acqui_ucb {
    };
};
struct PF : public PT {
    struct bayes_opt_bobase : public defaults::bayes_opt_bobase {
        BO_PARAM(int, stats_enabled, false);
        BO_PARAM(bool, bounded, false);
    };
};
BO_DECLARE_DYN_PARAM(int, PT::init_randomsampling, samples);
BO_DECLARE_DYN_PARAM(int, PT::init_lhs, samples);
BO_DECLARE_DYN_PARAM(int, PT::init_randomsamplinggrid, samples);
BO_DECLARE_DYN_PARAM(int, PT::init_randomsamplinggrid, bins);
BO_DECLARE_DYN_PARAM(int, PT::init_gridsampling, bins);
template <typename P>
struct FakeOpt {
    template <typename F>
    V operator()(const F&, const V& i, bool) const { return i; }
};
template <typename P>
struct FakeModel {
    FakeModel() {}
    FakeModel(int, int) {}
    void compute(const std::vector<V>&, const std::vector<V>&, bool = true) {}
    void add_sample(const V&, const V&) {}
    void optimize_hyperparams() {}
    std::tuple<V, double> query(const V&) const { return std::make_tuple(V::Zero(1).eval(), 1.); }
    V mu(const V&) const { return V::Zero(1); }
    double sigma(const V&) const { return 1.; }
    int dim_in() const { return 1; }
    int dim_out() const { return 1; }
    int nb_samples() const { return 0; }
};
static std::string kind;
static int bins, samples;
static std::vector<V> evals;
static long code(double x)
{
    if (kind == "grid" || kind == "rgrid") {
        double v = x * bins;
        return std::abs(v - std::round(v)) < 1e-9 ? std::lround(v) : -1;
    }
    if (kind == "lhs")
        return x >= 0 && x <= 1 ? std::min<long>(samples - 1, std::floor(x * samples)) : -1;
    return x >= 0 && x <= 1 ? 0 : 1;
}
template <int D>
struct Fun {
    BO_PARAM(size_t, dim_in, D);
    BO_PARAM(size_t, dim_out, 1);
    V operator()(const V& x) const
    {
        std::vector<long> p;
        for (int i = 0; i < x.size(); i++)
            p.push_back(code(x(i)));
        J("eval").li("p", p).emit();
        evals.push_back(x);
        return V::Constant(1, evals.size());
    }
};
template <typename P, typename I, int D>
void run(int runs)
{
    bayes_opt::BOptimizer<P, initfun<I>, modelfun<FakeModel<P>>, acquifun<acqui::UCB<P, FakeModel<P>>>, acquiopt<FakeOpt<P>>, statsfun<boost::fusion::vector<>>> o;
    std::set<double> all;
    long tot = 0;
    for (int r = 0; r < runs; r++) {
        if (r)
            J("again").emit();
        evals.clear();
        o.optimize(Fun<D>());
        std::vector<long> rec;
        for (size_t i = 0; i < o.samples().size(); i++) {
            long k = i < o.observations().size() && o.observations()[i].size() == 1 ? std::lround(o.observations()[i](0)) : 0;
            if (k < 1 || k > (long)evals.size() || evals[k - 1] != o.samples()[i])
                k = 0;
            rec.push_back(k);
        }
        if (o.observations().size() != o.samples().size())
            rec.push_back(0);
        for (auto& e : evals) {
            all.insert(e.data(), e.data() + e.size());
            tot += e.size();
        }
        J("end").i("distinct", all.size()).i("tot", tot).li("rec", rec).emit();
    }
}
template <typename P, typename I>
void dims(int d, int runs)
{
    if (d == 1)
        run<P, I, 1>(runs);
    else if (d == 2)
        run<P, I, 2>(runs);
    else if (d == 3)
        run<P, I, 3>(runs);
    else
        run<P, I, 4>(runs);
}
int main()
{
    std::vector<std::string> t;
    while (mbv::next_line(t)) { // kind dim n bins bounded runs json
        kind = t[0];
        int d = std::stoi(t[1]), runs = std::stoi(t[5]);
        samples = std::stoi(t[2]);
        bins = std::stoi(t[3]);
        bool b = t[4] == "1";
        PT::init_randomsampling::set_samples(samples);
        PT::init_lhs::set_samples(samples);
        PT::init_randomsamplinggrid::set_samples(samples);
        PT::init_randomsamplinggrid::set_bins(bins);
        PT::init_gridsampling::set_bins(bins);
        J("new").raw("cfg", t[6]).emit();
        if (kind == "none")
            dims<PT, init::NoInit<PT>>(d, runs);
        else if (kind == "grid")
            dims<PT, init::GridSampling<PT>>(d, runs);
        else if (kind == "rgrid")
            dims<PT, init::RandomSamplingGrid<PT>>(d, runs);
        else if (kind == "lhs")
            dims<PT, init::LHS<PT>>(d, runs);
        else if (b)
            dims<PT, init::RandomSampling<PT>>(d, runs);
        else
            dims<PF, init::RandomSampling<PF>>(d, runs);
    }
    return 0;
}
