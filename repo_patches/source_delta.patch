From 60c77ff5d2243fdc7e218f668388fa016180fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:53 +0000
Subject: [PATCH 01/28] fix: do not drop the last of six named template
 arguments of BOptimizer

---
 src/limbo/bayes_opt/bo_base.hpp    | 6 +++++-
 src/limbo/bayes_opt/boptimizer.hpp | 2 --
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index f87bece..da4d453 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -115,10 +115,14 @@ namespace limbo {
     BOOST_PARAMETER_TEMPLATE_KEYWORD(modelfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(statsfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
+    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
 
     namespace bayes_opt {
 
-        using bobase_signature = boost::parameter::parameters<boost::parameter::optional<tag::statsfun>,
+        // acquiopt is not used by BoBase, but it has to be in the signature because derived classes
+        // forward all their arguments: otherwise, the last named argument is silently ignored
+        using bobase_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>,
+            boost::parameter::optional<tag::statsfun>,
             boost::parameter::optional<tag::initfun>,
             boost::parameter::optional<tag::acquifun>,
             boost::parameter::optional<tag::stopcrit>,
diff --git a/src/limbo/bayes_opt/boptimizer.hpp b/src/limbo/bayes_opt/boptimizer.hpp
index 4860d02..3733fd1 100644
--- a/src/limbo/bayes_opt/boptimizer.hpp
+++ b/src/limbo/bayes_opt/boptimizer.hpp
@@ -72,8 +72,6 @@ namespace limbo {
         };
     }
 
-    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
-
     namespace bayes_opt {
 
         using boptimizer_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>,
-- 
2.43.0


From 261b00866b4af3d9ea71cfa7090adb0475c40522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 02/28] fix: restore the derived quantities when a GP is loaded
 without recomputation

---
 src/limbo/model/gp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/limbo/model/gp.hpp b/src/limbo/model/gp.hpp
index 3bfa4db..33b2f39 100644
--- a/src/limbo/model/gp.hpp
+++ b/src/limbo/model/gp.hpp
@@ -505,8 +505,14 @@ namespace limbo {
                 if (recompute)
                     this->recompute(true, true);
                 else {
+                    this->_compute_obs_mean();
                     archive.load(_matrixL, "matrixL");
                     archive.load(_alpha, "alpha");
+                    // the kernel matrix is not saved, but it is needed by incremental updates
+                    _kernel = _matrixL * _matrixL.transpose();
+
+                    // notify change of kernel
+                    _inv_kernel_updated = false;
                 }
             }
 
-- 
2.43.0


From a72c8e6cbda9d71cfd0ca9a873f4e96b1c1604c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 03/28] fix: make the GPLikelihood statistics compile

---
 src/limbo/stat/gp_likelihood.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/stat/gp_likelihood.hpp b/src/limbo/stat/gp_likelihood.hpp
index c60dcd2..d9d1e69 100644
--- a/src/limbo/stat/gp_likelihood.hpp
+++ b/src/limbo/stat/gp_likelihood.hpp
@@ -67,7 +67,7 @@ namespace limbo {
                 if (bo.total_iterations() == 0)
                     (*this->_log_file) << "#iteration gp_likelihood" << std::endl;
 
-                (*this->_log_file) << bo.total_iterations() << " " << bo.model().get_lik() << std::endl;
+                (*this->_log_file) << bo.total_iterations() << " " << bo.model().get_log_lik() << std::endl;
             }
         };
     }
-- 
2.43.0


From ced7ea4c22efa31931b10721c1c7b40e8bc5e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 04/28] fix: keep GridSearch inside the bounds for every number
 of bins

---
 src/limbo/opt/grid_search.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/limbo/opt/grid_search.hpp b/src/limbo/opt/grid_search.hpp
index 346568b..3006fdf 100644
--- a/src/limbo/opt/grid_search.hpp
+++ b/src/limbo/opt/grid_search.hpp
@@ -46,6 +46,7 @@
 #ifndef LIMBO_OPT_GRID_SEARCH_HPP
 #define LIMBO_OPT_GRID_SEARCH_HPP
 
+#include <algorithm>
 #include <limits>
 
 #include <Eigen/Core>
@@ -85,12 +86,12 @@ namespace limbo {
             {
                 size_t dim = current.size();
                 double step_size = 1.0 / (double)Params::opt_gridsearch::bins();
-                double upper_lim = 1.0 + step_size;
                 double best_fit = -std::numeric_limits<double>::max();
                 Eigen::VectorXd current_result(dim);
-                for (double x = 0; x < upper_lim; x += step_size) {
+                // use an integer counter: accumulating step_size can miss 1.0 or go beyond it
+                for (int i = 0; i <= Params::opt_gridsearch::bins(); i++) {
                     Eigen::VectorXd new_point = current;
-                    new_point[depth] = x;
+                    new_point[depth] = std::min(1.0, i * step_size);
                     double val;
                     if (depth == dim - 1) {
                         val = eval(f, new_point);
-- 
2.43.0


From a2a37c996a72a9c756ac8e120c60cab5d1ca297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 05/28] fix: always include the last point of the grids of
 GridSampling and stat::GP

---
 src/limbo/init/grid_sampling.hpp | 4 +++-
 src/limbo/stat/gp.hpp            | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/limbo/init/grid_sampling.hpp b/src/limbo/init/grid_sampling.hpp
index 6e184f9..9952ef2 100644
--- a/src/limbo/init/grid_sampling.hpp
+++ b/src/limbo/init/grid_sampling.hpp
@@ -80,7 +80,9 @@ namespace limbo {
             void _explore(int dim_in, const StateFunction& seval, const Eigen::VectorXd& current,
                 Opt& opt) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::init_gridsampling::bins()) {
+                // use an integer counter: accumulating the step can miss the last point
+                for (int i = 0; i <= Params::init_gridsampling::bins(); i++) {
+                    double x = i / (double)Params::init_gridsampling::bins();
                     Eigen::VectorXd point = current;
                     point[dim_in] = x;
                     if (dim_in == current.size() - 1) {
diff --git a/src/limbo/stat/gp.hpp b/src/limbo/stat/gp.hpp
index b952dab..b46932e 100644
--- a/src/limbo/stat/gp.hpp
+++ b/src/limbo/stat/gp.hpp
@@ -76,7 +76,9 @@ namespace limbo {
                 const BO& bo, const AggregatorFunction& afun,
                 const Eigen::VectorXd& current) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::stat_gp::bins()) {
+                // use an integer counter: accumulating the step can miss the last point
+                for (int i = 0; i <= Params::stat_gp::bins(); i++) {
+                    double x = i / (double)Params::stat_gp::bins();
                     Eigen::VectorXd point = current;
                     point[dim_in] = x;
                     if (dim_in == current.size() - 1) {
-- 
2.43.0


From 49e64d5d78b7dc6dd48656da637002438c1ad06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 06/28] fix: load denormal numbers from text archives

---
 src/limbo/serialize/text_archive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index 19d01f2..eb58344 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -142,7 +142,7 @@ namespace limbo {
                     std::string cell;
                     std::vector<double> line;
                     while (std::getline(line_stream, cell, ' '))
-                        line.push_back(std::stod(cell));
+                        line.push_back(std::strtod(cell.c_str(), nullptr));
                     v.push_back(line);
                 }
                 assert(!v.empty() && "empty file");
-- 
2.43.0


From fc7220eb71e14aa2b7d087dc77084c42b819406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 07/28] fix: avoid a NaN in GP_UCB at the first iteration

---
 src/limbo/acqui/gp_ucb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/acqui/gp_ucb.hpp b/src/limbo/acqui/gp_ucb.hpp
index 2c10f50..f30b335 100644
--- a/src/limbo/acqui/gp_ucb.hpp
+++ b/src/limbo/acqui/gp_ucb.hpp
@@ -82,7 +82,7 @@ namespace limbo {
         public:
             GP_UCB(const Model& model, int iteration) : _model(model)
             {
-                double nt = std::pow(iteration, dim_in() / 2.0 + 2.0);
+                double nt = std::pow(iteration + 1, dim_in() / 2.0 + 2.0);
                 static constexpr double delta3 = Params::acqui_gpucb::delta() * 3;
                 static constexpr double pi2 = M_PI * M_PI;
                 _beta = std::sqrt(2.0 * std::log(nt * pi2 / delta3));
-- 
2.43.0


From c5b1887c781795364e6203dc3b625b7103a280d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 08/28] fix: make the NLOpt optimizers reusable and respect the
 bounds for any starting point

---
 src/limbo/opt/nlopt_base.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index 7dc89cf..3be1f58 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -51,6 +51,8 @@
 #else
 #include <Eigen/Core>
 
+#include <algorithm>
+#include <cmath>
 #include <vector>
 
 #include <nlopt.hpp>
@@ -77,7 +79,8 @@ namespace limbo {
             Eigen::VectorXd operator()(const F& f, const Eigen::VectorXd& init, bool bounded)
             {
                 int dim = init.size();
-                if (!_initialized)
+                // an optimizer can be reused with another dimension
+                if (!_initialized || (int)_opt.get_dimension() != dim)
                     initialize(dim);
 
                 _opt.set_max_objective(nlopt_func<F>, (void*)&f);
@@ -88,6 +91,13 @@ namespace limbo {
                 if (bounded) {
                     _opt.set_lower_bounds(std::vector<double>(dim, 0));
                     _opt.set_upper_bounds(std::vector<double>(dim, 1));
+                    // NLOpt refuses to start from a point that is not within the bounds
+                    for (double& v : x)
+                        v = std::min(std::max(v, 0.), 1.);
+                }
+                else { // the bounds might have been set by a previous call
+                    _opt.set_lower_bounds(std::vector<double>(dim, -HUGE_VAL));
+                    _opt.set_upper_bounds(std::vector<double>(dim, HUGE_VAL));
                 }
 
                 double max;
-- 
2.43.0


From 73f7cdf3ca5cc09fd0254a7fc4db6b306f3235eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 09/28] fix: update the GPs of a MultiGP when recomputing with
 the same kernel

---
 src/limbo/model/multi_gp.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index 22bf26e..c528d45 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -257,9 +257,11 @@ namespace limbo {
                 if (_gp_models.size() == 0)
                     return;
 
-                if (update_obs_mean) // if the mean is updated, we need to fully re-compute
-                    return compute(_gp_models[0].samples(), _observations, update_full_kernel);
-                else
+                if (update_obs_mean) // if the mean is updated, we need to update the observations of the GPs
+                    compute(_gp_models[0].samples(), _observations, update_full_kernel);
+
+                // compute() does not update the GPs when the kernel is kept
+                if (!update_obs_mean || !update_full_kernel)
                     limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                         _gp_models[i].recompute(false, update_full_kernel);
                     });
-- 
2.43.0


From f6cc331b285116d2a7e171db22fcb059721aa4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 10/28] fix: re-center all the observations when a sample is
 added to a MultiGP

---
 src/limbo/model/multi_gp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index c528d45..f8e39f3 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -172,6 +172,11 @@ namespace limbo {
                 limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                     _gp_models[i].add_sample(sample, limbo::tools::make_vector(observation[i] - mean_vector[i]));
                 });
+
+                // the mean function can depend on the data: the previous observations have to be re-centered
+                // (this is not possible if the GPs do not keep all the samples, e.g. SparsifiedGP)
+                if (_gp_models[0].nb_samples() == (int)_observations.size())
+                    recompute(true, false);
             }
 
             /**
-- 
2.43.0


From e6ab7699f56f0983e077a011e4515fb18652eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 11/28] fix: train the models of CBOptimizer with the last
 observation

---
 src/limbo/experimental/bayes_opt/cboptimizer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 3a9d620..c0c6587 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -178,6 +178,8 @@ namespace limbo {
 
                         this->_update_stats(*this, afun);
 
+                        // take the new observation into account
+                        _split_observations();
                         _model.add_sample(this->_samples.back(), _obs[0].back());
                         if (_nb_constraints > 0)
                             _constraint_model.add_sample(this->_samples.back(), _obs[1].back());
-- 
2.43.0


From a2817114e49f726ce86159809f05b70d6594548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:08 +0000
Subject: [PATCH 12/28] fix: CBOptimizer reads out of bounds when there is no
 constraint

---
 src/limbo/experimental/bayes_opt/cboptimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index c0c6587..022bb01 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -243,7 +243,7 @@ namespace limbo {
                 {
                     std::vector<Eigen::VectorXd> feasible_obs;
                     for (size_t i = 0; i < _obs[0].size(); ++i) {
-                        if (_obs[1][i].prod() > 0)
+                        if (_nb_constraints == 0 || _obs[1][i].prod() > 0)
                             feasible_obs.push_back(_obs[0][i]);
                     }
 
-- 
2.43.0


From 8df12d9d5e8d69e1623ec33454e1aa6fdd07393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:08 +0000
Subject: [PATCH 13/28] fix: CBOptimizer::best_sample does not match
 best_observation with unfeasible samples

---
 .../experimental/bayes_opt/cboptimizer.hpp    | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 022bb01..bea3bd0 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -220,14 +220,17 @@ namespace limbo {
                     _dim_out = _model.dim_out();
                     _split_observations();
 
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
+                    // keep the indices of the feasible samples
+                    std::vector<size_t> indices = _feasible_indices();
+                    if (indices.empty())
+                        for (size_t i = 0; i < _obs[0].size(); ++i)
+                            indices.push_back(i);
+
+                    auto rewards = std::vector<double>(indices.size());
+                    std::transform(indices.begin(), indices.end(), rewards.begin(),
+                        [&](size_t i) { return afun(_obs[0][i]); });
                     auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return this->_samples[std::distance(rewards.begin(), max_e)];
+                    return this->_samples[indices[std::distance(rewards.begin(), max_e)]];
                 }
 
                 const model_t& model() const { return _model; } // returns model for the objective function
@@ -239,14 +242,23 @@ namespace limbo {
                 mutable size_t _dim_out;
                 mutable std::vector<std::vector<Eigen::VectorXd>> _obs;
 
-                std::vector<Eigen::VectorXd> _feasible_observations() const
+                std::vector<size_t> _feasible_indices() const
                 {
-                    std::vector<Eigen::VectorXd> feasible_obs;
+                    std::vector<size_t> indices;
                     for (size_t i = 0; i < _obs[0].size(); ++i) {
                         if (_nb_constraints == 0 || _obs[1][i].prod() > 0)
-                            feasible_obs.push_back(_obs[0][i]);
+                            indices.push_back(i);
                     }
 
+                    return indices;
+                }
+
+                std::vector<Eigen::VectorXd> _feasible_observations() const
+                {
+                    std::vector<Eigen::VectorXd> feasible_obs;
+                    for (size_t i : _feasible_indices())
+                        feasible_obs.push_back(_obs[0][i]);
+
                     return feasible_obs;
                 }
 
-- 
2.43.0


From 3c060ebf4c86bd1bcc7a3b4f048a52a9754413f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 14/28] fix: SparsifiedGP reads out of bounds when there are
 less points than dimensions

---
 src/limbo/model/sparsified_gp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/model/sparsified_gp.hpp b/src/limbo/model/sparsified_gp.hpp
index 7538fcc..c03ea99 100644
--- a/src/limbo/model/sparsified_gp.hpp
+++ b/src/limbo/model/sparsified_gp.hpp
@@ -125,6 +125,8 @@ namespace limbo {
             /// the (pre)computed distance between the ith and the jth samples
             int _get_most_dense_point(int D, int N, const Eigen::MatrixXd& distances) const
             {
+                /// there can be less neighbors than dimensions
+                D = std::min(D, N - 1);
                 std::mutex update_mutex;
                 double min_dist = std::numeric_limits<double>::max();
                 int denser = -1;
-- 
2.43.0


From 5b9ae154bc25ed3bb8125dfb8a42f34536b2d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:51 +0000
Subject: [PATCH 15/28] fix: do not drop the named template arguments of
 CBOptimizer

---
 .../experimental/bayes_opt/cboptimizer.hpp     | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index bea3bd0..57bff78 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -86,6 +86,20 @@ namespace limbo {
                 boost::parameter::optional<limbo::tag::modelfun>,
                 boost::parameter::optional<limbo::experimental::tag::constraint_modelfun>>;
 
+            namespace cbo_impl {
+                // BoBase has less parameters than CBOptimizer: only forward what BoBase needs (with the same defaults)
+                template <class Params, class Args>
+                struct base {
+                    using defaults = typename limbo::bayes_opt::BoBase<Params>::defaults;
+                    using type = limbo::bayes_opt::BoBase<Params,
+                        limbo::initfun<typename boost::parameter::binding<Args, limbo::tag::initfun, typename defaults::init_t>::type>,
+                        limbo::modelfun<typename boost::parameter::binding<Args, limbo::tag::modelfun, typename defaults::model_t>::type>,
+                        limbo::acquifun<typename boost::parameter::binding<Args, limbo::tag::acquifun, typename defaults::acqui_t>::type>,
+                        limbo::statsfun<typename boost::parameter::binding<Args, limbo::tag::statsfun, typename defaults::stat_t>::type>,
+                        limbo::stopcrit<typename boost::parameter::binding<Args, limbo::tag::stopcrit, typename defaults::stop_t>::type>>;
+                };
+            }
+
             // clang-format off
         /**
         The classic Bayesian optimization algorithm.
@@ -117,7 +131,7 @@ namespace limbo {
           class A6 = boost::parameter::void_,
           class A7 = boost::parameter::void_>
             // clang-format on
-            class CBOptimizer : public limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6> {
+            class CBOptimizer : public cbo_impl::base<Params, typename cboptimizer_signature::bind<A1, A2, A3, A4, A5, A6, A7>::type>::type {
             public:
                 // defaults
                 struct defaults {
@@ -134,7 +148,7 @@ namespace limbo {
                     using constraint_model_t = limbo::model::GP<Params, kf_t, mean_t>;
                 };
                 /// link to the corresponding BoBase (useful for typedefs)
-                using base_t = limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6>;
+                using base_t = typename cbo_impl::base<Params, typename cboptimizer_signature::bind<A1, A2, A3, A4, A5, A6, A7>::type>::type;
                 using model_t = typename base_t::model_t;
 
                 using acquisition_function_t = typename base_t::acquisition_function_t;
-- 
2.43.0


From cc0f9c63233bcaa34a9676aa5d2f45d53ca6e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:51 +0000
Subject: [PATCH 16/28] fix: take all the named template arguments of Ehvi and
 Parego into account

---
 src/limbo/experimental/bayes_opt/ehvi.hpp   | 8 +++++++-
 src/limbo/experimental/bayes_opt/parego.hpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index d9e4edb..7085c9e 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -69,7 +69,13 @@ namespace limbo {
 
             BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
 
-            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>>;
+            // all the arguments have to be in the signature, otherwise acquiopt is ignored when it is not the first one
+            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>,
+                boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>,
+                boost::parameter::optional<limbo::tag::modelfun>>;
 
             template <class Params,
                 class A1 = boost::parameter::void_,
diff --git a/src/limbo/experimental/bayes_opt/parego.hpp b/src/limbo/experimental/bayes_opt/parego.hpp
index 7b0ec27..bcdf540 100644
--- a/src/limbo/experimental/bayes_opt/parego.hpp
+++ b/src/limbo/experimental/bayes_opt/parego.hpp
@@ -59,7 +59,13 @@ namespace limbo {
 
             BOOST_PARAMETER_TEMPLATE_KEYWORD(parego_modelfun)
 
-            using parego_signature = boost::parameter::parameters<boost::parameter::optional<tag::parego_modelfun>>;
+            // all the arguments have to be in the signature, otherwise parego_modelfun is ignored when it is not the first one
+            using parego_signature = boost::parameter::parameters<boost::parameter::optional<tag::parego_modelfun>,
+                boost::parameter::optional<limbo::tag::acquiopt>,
+                boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>>;
 
             // clang-format off
             template <class Params,
-- 
2.43.0


From 29c0f520e3e69fef1351227290f9a2a27f23593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:52 +0000
Subject: [PATCH 17/28] fix: Ehvi shares the state of an optimizer between
 parallel runs

---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index 7085c9e..f15b150 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -110,8 +110,6 @@ namespace limbo {
                 {
                     this->_init(feval, FirstElem(), reset);
 
-                    acqui_optimizer_t inner_opt;
-
                     while (this->_samples.size() == 0 || !this->_stop(*this, FirstElem())) {
                         this->template update_pareto_model<EvalFunction::dim_in()>();
                         this->update_pareto_data();
@@ -140,6 +138,8 @@ namespace limbo {
                             auto acqui_optimization =
                                 [&](const Eigen::VectorXd& x, bool g) { return opt::no_grad(acqui(x)); };
 
+                            // one optimizer for each run, because they can run in parallel
+                            acqui_optimizer_t inner_opt;
                             Eigen::VectorXd s = inner_opt(acqui_optimization, std::get<0>(x), true);
                             double hv = acqui(s);
 
-- 
2.43.0


From 83ba77e1ddc8ae0cdd6b04e21f6365e0f926ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:44 +0000
Subject: [PATCH 18/28] fix: text archives turn the largest numbers into
 infinities

---
 src/limbo/serialize/text_archive.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index eb58344..4ef04c0 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -48,6 +48,7 @@
 
 #include <cassert>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 
@@ -63,7 +64,7 @@ namespace limbo {
         class TextArchive {
         public:
             TextArchive(const std::string& dir_name) : _dir_name(dir_name),
-                                                       _fmt(Eigen::FullPrecision, Eigen::DontAlignCols, " ", "\n", "", "") {}
+                                                       _fmt(std::numeric_limits<double>::max_digits10, Eigen::DontAlignCols, " ", "\n", "", "") {}
 
             /// write an Eigen::Matrix*
             void save(const Eigen::MatrixXd& v, const std::string& object_name) const
-- 
2.43.0


From 1b9bf2f2ae47e3c7c8e3bb553b8283523be1a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:59 +0000
Subject: [PATCH 19/28] fix: GridSearch returns uninitialised memory if the
 objective is never finite

---
 src/limbo/opt/grid_search.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/grid_search.hpp b/src/limbo/opt/grid_search.hpp
index 3006fdf..e70127d 100644
--- a/src/limbo/opt/grid_search.hpp
+++ b/src/limbo/opt/grid_search.hpp
@@ -87,7 +87,9 @@ namespace limbo {
                 size_t dim = current.size();
                 double step_size = 1.0 / (double)Params::opt_gridsearch::bins();
                 double best_fit = -std::numeric_limits<double>::max();
-                Eigen::VectorXd current_result(dim);
+                // the first point of the grid, if no value is greater than -inf
+                Eigen::VectorXd current_result = current;
+                current_result.tail(dim - depth).setZero();
                 // use an integer counter: accumulating step_size can miss 1.0 or go beyond it
                 for (int i = 0; i <= Params::opt_gridsearch::bins(); i++) {
                     Eigen::VectorXd new_point = current;
-- 
2.43.0


From ab86ac1920e370d0670da78656405d928e7601df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:59 +0000
Subject: [PATCH 20/28] fix: ParallelRepeater ignores low values and can leave
 the bounds

---
 src/limbo/opt/parallel_repeater.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/parallel_repeater.hpp b/src/limbo/opt/parallel_repeater.hpp
index a3eebf8..f98e549 100644
--- a/src/limbo/opt/parallel_repeater.hpp
+++ b/src/limbo/opt/parallel_repeater.hpp
@@ -99,7 +99,11 @@ namespace limbo {
                     // clang-format on
                 };
 
-                pair_t init_v = std::make_pair(init, -std::numeric_limits<float>::max());
+                // returned only if no replicate is better than -inf
+                Eigen::VectorXd start = init;
+                if (bounded)
+                    start = start.cwiseMax(0.).cwiseMin(1.);
+                pair_t init_v = std::make_pair(start, -std::numeric_limits<double>::infinity());
                 auto m = tools::par::max(init_v, Params::opt_parallelrepeater::repeats(), body, comp);
 
                 return m.first;
-- 
2.43.0


From e9480f5d51724cf5d122ada595d4132d6fc4d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:18 +0000
Subject: [PATCH 21/28] fix: a reseeded gaussian generator keeps a value of the
 previous sequence

---
 src/limbo/tools/random_generator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/tools/random_generator.hpp b/src/limbo/tools/random_generator.hpp
index e44edbd..9889c3a 100644
--- a/src/limbo/tools/random_generator.hpp
+++ b/src/limbo/tools/random_generator.hpp
@@ -81,6 +81,8 @@ namespace limbo {
                     _rgen.seed(seed);
                 else
                     _rgen.seed(randutils::auto_seed_128{}.base());
+                // a distribution can keep values from the previous sequence (e.g. std::normal_distribution)
+                _dist.reset();
             }
 
             void reset() { _dist.reset(); }
-- 
2.43.0


From 4336be936a77afc36df1035b323dc74f7cad3fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 22/28] fix: Parego ignores its model when bo_multi.hpp is
 included before

The modelfun keyword was looked up in experimental::bayes_opt, where
bo_multi.hpp declares another keyword with the same name: BOptimizer then used
its default model, and neither GPParego nor parego_modelfun had any effect.
---
 src/limbo/experimental/bayes_opt/parego.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/bayes_opt/parego.hpp b/src/limbo/experimental/bayes_opt/parego.hpp
index bcdf540..4518cd4 100644
--- a/src/limbo/experimental/bayes_opt/parego.hpp
+++ b/src/limbo/experimental/bayes_opt/parego.hpp
@@ -78,7 +78,7 @@ namespace limbo {
             // YOU NEED TO PASS A parego_modelfun and not a modelfun !
             class Parego : public limbo::bayes_opt::BOptimizer<
               Params,
-              modelfun<
+              limbo::modelfun<
                   typename model::GPParego<Params,
                     typename boost::parameter::binding<
                          typename parego_signature::bind<A1, A2, A3, A4, A5>::type,
-- 
2.43.0


From 1bdae10c27dcff23222d249d6b77b380460274ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 23/28] fix: the multi-objective optimizers ignore some of
 their named template arguments

bo_multi.hpp and ehvi.hpp declared other keywords with the names of the ones of
limbo: limbo::acquiopt was ignored by Ehvi, and those of
experimental::bayes_opt were ignored by BoBase. There is now one keyword for each.
---
 src/limbo/experimental/bayes_opt/bo_multi.hpp | 23 ++++++++++---------
 src/limbo/experimental/bayes_opt/ehvi.hpp     |  6 ++---
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/bo_multi.hpp b/src/limbo/experimental/bayes_opt/bo_multi.hpp
index 446fbde..e70cf78 100644
--- a/src/limbo/experimental/bayes_opt/bo_multi.hpp
+++ b/src/limbo/experimental/bayes_opt/bo_multi.hpp
@@ -130,18 +130,19 @@ namespace limbo {
 #endif
             }
 
+            // the keywords have to be those of limbo, otherwise BoBase does not know them
             // to be removed once moved out of experimental?
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(initfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(acquifun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(modelfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(statsfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
-
-            using bo_multi_signature = boost::parameter::parameters<boost::parameter::optional<tag::statsfun>,
-                boost::parameter::optional<tag::initfun>,
-                boost::parameter::optional<tag::acquifun>,
-                boost::parameter::optional<tag::stopcrit>,
-                boost::parameter::optional<tag::modelfun>>;
+            using limbo::initfun;
+            using limbo::acquifun;
+            using limbo::modelfun;
+            using limbo::statsfun;
+            using limbo::stopcrit;
+
+            using bo_multi_signature = boost::parameter::parameters<boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>,
+                boost::parameter::optional<limbo::tag::modelfun>>;
 
             template <class Params,
                 class A1 = boost::parameter::void_,
diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index f15b150..74badc4 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -67,10 +67,10 @@ namespace limbo {
     namespace experimental {
         namespace bayes_opt {
 
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
+            using limbo::acquiopt;
 
             // all the arguments have to be in the signature, otherwise acquiopt is ignored when it is not the first one
-            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>,
+            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<limbo::tag::acquiopt>,
                 boost::parameter::optional<limbo::tag::statsfun>,
                 boost::parameter::optional<limbo::tag::initfun>,
                 boost::parameter::optional<limbo::tag::acquifun>,
@@ -99,7 +99,7 @@ namespace limbo {
                 };
 
                 using args = typename ehvi_signature::bind<A1, A2, A3, A4, A5, A6>::type;
-                using acqui_optimizer_t = typename boost::parameter::binding<args, tag::acquiopt, typename defaults::acquiopt_t>::type;
+                using acqui_optimizer_t = typename boost::parameter::binding<args, limbo::tag::acquiopt, typename defaults::acquiopt_t>::type;
 
                 using pareto_point_t = std::tuple<Eigen::VectorXd, Eigen::VectorXd, Eigen::VectorXd>;
                 using base_t = limbo::experimental::bayes_opt::BoMulti<Params, A1, A2, A3, A4, A5, A6>;
-- 
2.43.0


From d279efe008dcc01ad8e8b745ec47fd4303536dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 24/28] fix: IMGPO never updates the statistics

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 048257b..f930bd3 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -110,6 +110,8 @@ namespace limbo {
                     _tree[0].samp.push_back(true);
 
                     this->add_new_sample(_tree[0].x[0], _tree[0].f[0]);
+                    this->_update_stats(*this, afun);
+
                     double LB = afun(_tree[0].f[0]);
                     double inf = std::numeric_limits<double>::infinity();
 
@@ -159,6 +161,8 @@ namespace limbo {
                                     _tree[h].samp[i_max[h]] = true;
                                     this->add_new_sample(xxx, tmp_sample);
 
+                                    this->_update_stats(*this, afun);
+
                                     // N = N+1
                                     this->_current_iteration++;
                                     this->_total_iterations++;
@@ -293,6 +297,8 @@ namespace limbo {
 
                                     b_hi_max_2 = std::max(b_hi_max_2, fsample_g(0));
 
+                                    this->_update_stats(*this, afun);
+
                                     // N = N+1
                                     this->_current_iteration++;
                                     this->_total_iterations++;
@@ -332,6 +338,8 @@ namespace limbo {
 
                                     b_hi_max_2 = std::max(b_hi_max_2, fsample_d(0));
 
+                                    this->_update_stats(*this, afun);
+
                                     // N = N+1
                                     this->_current_iteration++;
                                     this->_total_iterations++;
-- 
2.43.0


From 8457b4e2a522750cdcfdf777009428b048b69da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:16 +0000
Subject: [PATCH 25/28] fix: GPLikelihood writes a likelihood which is not
 computed or outdated

---
 src/limbo/stat/gp_likelihood.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/stat/gp_likelihood.hpp b/src/limbo/stat/gp_likelihood.hpp
index d9d1e69..6e16234 100644
--- a/src/limbo/stat/gp_likelihood.hpp
+++ b/src/limbo/stat/gp_likelihood.hpp
@@ -67,7 +67,9 @@ namespace limbo {
                 if (bo.total_iterations() == 0)
                     (*this->_log_file) << "#iteration gp_likelihood" << std::endl;
 
-                (*this->_log_file) << bo.total_iterations() << " " << bo.model().get_log_lik() << std::endl;
+                // get_log_lik() is the last computed value (if any): compute the current one
+                auto model = bo.model();
+                (*this->_log_file) << bo.total_iterations() << " " << model.compute_log_lik() << std::endl;
             }
         };
     }
-- 
2.43.0


From e5660b7c33ef0285175239f2e18ae499f0b4d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 26/28] fix: IMGPO does not use the aggregator everywhere

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index f930bd3..f8da1c9 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -295,7 +295,7 @@ namespace limbo {
 
                                     this->add_new_sample(x_g, fsample_g);
 
-                                    b_hi_max_2 = std::max(b_hi_max_2, fsample_g(0));
+                                    b_hi_max_2 = std::max(b_hi_max_2, afun(fsample_g));
 
                                     this->_update_stats(*this, afun);
 
@@ -336,7 +336,7 @@ namespace limbo {
 
                                     this->add_new_sample(x_d, fsample_d);
 
-                                    b_hi_max_2 = std::max(b_hi_max_2, fsample_d(0));
+                                    b_hi_max_2 = std::max(b_hi_max_2, afun(fsample_d));
 
                                     this->_update_stats(*this, afun);
 
@@ -367,7 +367,7 @@ namespace limbo {
                                 _tree[h + 1].leaf.push_back(true);
 
                                 // update LB
-                                LB = afun(this->best_observation());
+                                LB = afun(this->best_observation(afun));
 
                                 // std::cout << t << " N= " << this->_current_iteration << " n= " << split_n << " fmax_hat= " << LB << " rho= " << rho_bar << " xi= " << xi_max << " h= " << depth_T << std::endl;
                             }
-- 
2.43.0


From 6898a9d06bde63ade05db98e3247c874cb2bf3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:38 +0000
Subject: [PATCH 27/28] fix: a resumed IMGPO evaluates the same cells again

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 43 +++++++++++++---------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index f8da1c9..6f16194 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -94,36 +94,43 @@ namespace limbo {
                 {
                     this->_init(sfun, afun, reset);
                     size_t h_upper = 1000;
-                    // Init tree
-                    if (this->_total_iterations == 0)
-                        _init_tree(h_upper);
-
                     // Init model
                     _model = model_t(StateFunction::dim_in(), StateFunction::dim_out());
 
-                    // Init root
-                    _tree[0].x_max.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()));
-                    _tree[0].x_min.push_back(Eigen::VectorXd::Zero(StateFunction::dim_in()));
-                    _tree[0].x.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()) * 0.5);
-                    _tree[0].f.push_back(sfun(_tree[0].x[0]));
-                    _tree[0].leaf.push_back(true);
-                    _tree[0].samp.push_back(true);
+                    size_t depth_T = 0, M = 1;
+                    if (this->_total_iterations == 0) {
+                        // Init tree
+                        _init_tree(h_upper);
+
+                        // Init root
+                        _tree[0].x_max.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()));
+                        _tree[0].x_min.push_back(Eigen::VectorXd::Zero(StateFunction::dim_in()));
+                        _tree[0].x.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()) * 0.5);
+                        _tree[0].f.push_back(sfun(_tree[0].x[0]));
+                        _tree[0].leaf.push_back(true);
+                        _tree[0].samp.push_back(true);
 
-                    this->add_new_sample(_tree[0].x[0], _tree[0].f[0]);
-                    this->_update_stats(*this, afun);
+                        this->add_new_sample(_tree[0].x[0], _tree[0].f[0]);
+                        this->_update_stats(*this, afun);
 
-                    double LB = afun(_tree[0].f[0]);
+                        // N = N+1
+                        this->_current_iteration++;
+                        this->_total_iterations++;
+                    }
+                    else {
+                        // continue with the tree of the previous call
+                        while (!_tree[depth_T + 1].x.empty())
+                            depth_T++;
+                    }
+
+                    double LB = afun(this->best_observation(afun));
                     double inf = std::numeric_limits<double>::infinity();
 
-                    size_t depth_T = 0, M = 1;
                     double rho_avg = 0, rho_bar = 0;
                     size_t t = 0, XI_max = 4, split_n = 1;
                     int xi_max = 0;
                     double XI = 1;
                     double LB_old = LB;
-                    // N = N+1
-                    this->_current_iteration++;
-                    this->_total_iterations++;
 
                     while (this->_samples.size() == 0 || !this->_stop(*this, afun)) {
                         std::vector<int> i_max(depth_T + 1, -1);
-- 
2.43.0


From 510e9a5345af3638038ca50c9d5514d926646476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:23 +0000
Subject: [PATCH 28/28] fix: Ehvi uses the variances of the models as standard
 deviations

---
 src/limbo/experimental/acqui/ehvi.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/acqui/ehvi.hpp b/src/limbo/experimental/acqui/ehvi.hpp
index fe73f82..75301a7 100644
--- a/src/limbo/experimental/acqui/ehvi.hpp
+++ b/src/limbo/experimental/acqui/ehvi.hpp
@@ -46,6 +46,7 @@
 #ifndef LIMBO_EXPERIMENTAL_ACQUI_EHVI_HPP
 #define LIMBO_EXPERIMENTAL_ACQUI_EHVI_HPP
 
+#include <cmath>
 #include <vector>
 
 #include <Eigen/Core>
@@ -73,7 +74,8 @@ namespace limbo {
                 assert(_models.size() == 2);
                 double r[3] = {_ref_point(0), _ref_point(1), _ref_point(2)};
                 double mu[3] = {afun(_models[0].mu(v)), afun(_models[1].mu(v)), 0};
-                double s[3] = {_models[0].sigma(v), _models[1].sigma(v), 0};
+                // sigma() is the variance
+                double s[3] = {std::sqrt(_models[0].sigma(v)), std::sqrt(_models[1].sigma(v)), 0};
                 double ehvi = ehvi2d(_pop, r, mu, s);
                 return ehvi;
             }
-- 
2.43.0

