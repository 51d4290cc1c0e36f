#!/usr/bin/env python3
"""Regenerates properties.jsonl (the list below is the source)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": ["src/limbo/" + f if not f.startswith("src/") else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

BO = ["bayes_opt/bo_base.hpp", "bayes_opt/boptimizer.hpp"]
p("C01", "A run evaluates the design, then one fresh proposal per iteration",
  "An optimisation run first evaluates the initial design (on an empty history), then at each iteration asks for exactly one proposal, evaluates it exactly once and records that point with the value it returned, in evaluation order. Each proposal is made with the current iteration number and with a model that holds every recorded pair and nothing else, by maximising the acquisition function under the aggregator of the run from a fresh random point of the box; statistics are called once per iteration, after the evaluation is recorded and before the iteration counters move. When the run ends, the model holds the whole history and both counters equal the number of iterations.",
  ["histories", "configurations"], "every sequence of proposals and values, every initial design size and iteration budget, and every model/acquisition/optimiser plugged in",
  "Tests run a few fixed functions and look at the final best value; none checks what the model held or which counter value was used when each proposal was made.",
  BO, [("BOptimizer::optimize loop", "bayes_opt/boptimizer.hpp"), ("BoBase::eval_and_add / add_new_sample", "bayes_opt/bo_base.hpp")],
  ["user components (model, acquisition, acquisition optimiser, statistics, init) given as template arguments", "samples()/observations()/current_iteration()/total_iterations()"])
p("C02", "Resuming keeps the history; resetting forgets it",
  "Calling optimise again with reset clears samples, observations and the total iteration count and repeats the initial design; without reset, all earlier samples, observations and the total count are kept, the initial design is not repeated once an iteration was completed, and the model is retrained on the complete history before the first new proposal. The per-run iteration number restarts at zero in every call, so that each call has its full budget. Pairs added by hand before a resumed call are part of the history, with their place in order.",
  ["histories"], "every sequence of calls with and without reset, mixed with manual additions and changed budgets",
  "One test resumes once and checks the number of samples.",
  BO, [("BoBase::_init", "bayes_opt/bo_base.hpp"), ("model.compute at the start of optimize", "bayes_opt/boptimizer.hpp")],
  ["samples()/observations()/current_iteration()/total_iterations() and the data given to the model"])
p("C03", "A failed evaluation leaves a consistent history and reaches the caller",
  "If the evaluated function throws, or returns a value with a NaN or infinite component, the error reaches the caller of optimise (or of the manual addition) and nothing of that evaluation is recorded: samples and observations stay paired, equal to all earlier successful evaluations, and the counters are unchanged. A later call that resumes continues from exactly that history.",
  ["fault_sequences", "histories"], "every position at which evaluations fail (initial design or any iteration), every kind of failure, and every continuation afterwards",
  "No test makes an evaluation fail inside a run.",
  BO, [("tools::is_nan_or_inf check before recording", "bayes_opt/bo_base.hpp"), ("is_nan_or_inf", "tools/math.hpp")],
  ["exception seen by the caller, samples()/observations()/counters afterwards"])
p("C04", "The reported best is the first maximum of the aggregated observations",
  "After any history, the reported best observation is the recorded observation whose aggregated value is maximal under the aggregator given to the query, the earliest one in case of ties, and the reported best sample is the sample recorded with that very observation. This holds for every aggregator and every number of objectives, independently of the aggregator used to run the optimisation.",
  ["histories", "inputs"], "every history of observations (ties, negative values, several outputs) and every aggregator",
  "Tests look at the best value of a handful of converged runs.",
  BO, [("best_observation / best_sample", "bayes_opt/boptimizer.hpp")], ["best_observation(afun), best_sample(afun)"])
p("C05", "The run stops exactly when one of its stopping criteria holds",
  "Before each iteration, and before nothing else, the run stops if and only if at least one of the configured stopping criteria holds for the current history; the order of the criteria does not matter. The iteration criterion holds when the number of iterations of this call reaches its limit, and the predicted-value criterion when there is an observation and the best aggregated one exceeds ratio times the best value predicted by the model.",
  ["histories", "configurations"], "every sequence of observed values, every combination and order of criteria and thresholds",
  "Tests use one iteration limit with one function, and never combine criteria.",
  ["stop/chain_criteria.hpp", "stop/max_iterations.hpp", "stop/max_predicted_value.hpp"] + BO, [("ChainCriteria fold", "stop/chain_criteria.hpp"), ("_stop", "bayes_opt/bo_base.hpp")],
  ["number of evaluations of the user function at return"])
p("C06", "Hyper-parameters are re-tuned exactly every hp_period iterations",
  "If the hyper-parameter period is positive, the model's hyper-parameter optimisation is run exactly after each iteration whose number in the call is a multiple of the period, once, with the model already holding that iteration's observation; if the period is zero or negative it is never run.",
  ["histories", "configurations"], "every period, iteration budget and sequence of resumed calls",
  "Tests only use the default or one period and check convergence.",
  BO, [("hp_period test in the loop", "bayes_opt/boptimizer.hpp")], ["calls received by a user-defined model"])
p("C07", "Every named component is used, whatever the order of the arguments",
  "For the optimisers configured with named template arguments, every component that is passed is the one used by the run, whatever subset of components is passed and in whatever order, and every component that is not passed is the documented default. (Combinations the optimiser documents: the constrained and the tree-based optimisers with an acquisition function written for them, the hypervolume optimiser with statistics and an initial design.)",
  ["programs", "configurations"], "every subset and every order of the named components",
  "Tests instantiate a few fixed combinations and do not check which component was really used.",
  BO + ["experimental/bayes_opt/cboptimizer.hpp", "experimental/bayes_opt/parego.hpp", "experimental/bayes_opt/ehvi.hpp"], [("boost::parameter signatures", "bayes_opt/bo_base.hpp")],
  ["which user component is called"])
p("C08", "Statistics files tell the true history",
  "With statistics enabled, the samples, observations, aggregated, best-sample, best-observation, best-aggregated, hyper-parameter, likelihood, acquisition and prediction-difference files hold, for each evaluation of the run (initial design points under iteration -1 where the file lists all evaluations, one line per iteration otherwise), exactly the true values at that moment (to the six significant digits of the default stream format), in order, one line each after the header line, including after resumed calls; the likelihood is that of the model's current data and parameters. With statistics disabled nothing is written.",
  ["histories", "configurations"], "every history of evaluations and calls, every aggregator and number of outputs",
  "No test reads a statistics file.",
  ["stat/*.hpp"] + BO, [("stat functors", "stat/"), ("_update_stats", "bayes_opt/bo_base.hpp")], ["files in res_dir()"])

GPF = ["model/gp.hpp"]
p("C09", "A GP's predictions are those of its current data, whatever the history",
  "After any sequence of batch computations, incremental additions and recomputations, the mean and variance predicted by a Gaussian process at any point are those of the exact posterior for its current samples, observations, kernel and mean parameters: adding points one at a time or in one batch makes no difference. Before any data, predictions are the mean function and the prior variance; queries never change the model, and copies are independent.",
  ["histories"], "every interleaving of compute, add_sample, parameter changes followed by recompute, copies and queries; every kernel and mean function",
  "Tests compare incremental and batch training on one data set with one kernel.",
  GPF + ["kernel/*.hpp", "mean/*.hpp"], [("_compute_incremental_kernel", "model/gp.hpp"), ("recompute", "model/gp.hpp")], ["mu, sigma, query"])
p("C10", "A GP's likelihood, LOO score and gradients are never stale",
  "At any time after data or parameters were changed through the model's operations, computing the log-likelihood, the leave-one-out score or their gradients gives the values for the current data and parameters, whatever was computed or cached before; the getters return the last computed or explicitly set value.",
  ["histories"], "every interleaving of updates (compute, add, recompute, load) and computations of the derived quantities",
  "Tests compute these quantities on a freshly computed model only.",
  GPF, [("_inv_kernel_updated flag", "model/gp.hpp")], ["compute_log_lik, compute_log_loo_cv, compute_*_grad_*, get_*"])
p("C11", "Hyper-parameter optimisation never makes the model worse or inconsistent",
  "Optimising the hyper-parameters of a Gaussian process never lowers the criterion it optimises (likelihood or leave-one-out score), leaves samples and observations untouched, changes only the parameters it is meant to tune, and leaves the model's predictions and stored criterion value consistent with the new parameters.",
  ["inputs", "histories"], "every data set, starting parameters and history of updates, for the kernel, mean, kernel+mean likelihood and the leave-one-out tuners",
  "Tests check it on one or two data sets and do not look at consistency afterwards.",
  ["model/gp/*.hpp"] + GPF, [("KernelLFOpt etc.", "model/gp/"), ("Rprop returns the best visited point", "opt/rprop.hpp")], ["parameters, criterion and predictions before and after"])
p("C12", "A saved model loads back with the same predictions",
  "Saving a Gaussian process (single or multi-output) in a text or binary archive and loading it, with or without recomputation, into a fresh or an already used model gives a model with the same samples, observations, parameters, predictions and likelihood, that continues to behave like the original under further additions and recomputations. Saving again in the same place replaces the earlier model completely.",
  ["histories"], "every sequence of updates, saves in several places, loads (with or without recomputation) and further updates",
  "Tests save and load one freshly trained model into a new one and query it.",
  GPF + ["model/multi_gp.hpp", "serialize/*.hpp"], [("GP::save / GP::load", "model/gp.hpp")], ["mu, sigma, log-likelihood after load"])
p("C13", "Archives give back what was stored last under each name",
  "Loading an object from an archive gives the matrix, vector or list of vectors saved last under that name in that directory: same dimensions, order and values (bit for bit for binary archives, to at least fifteen significant digits for text archives), including extreme and denormal numbers. Saving one object never changes another one.",
  ["histories", "inputs"], "every sequence of saves and loads with several names, directories, types and sizes",
  "Tests store one random matrix or list at a time.",
  ["serialize/text_archive.hpp", "serialize/binary_archive.hpp"], [("TextArchive, BinaryArchive", "serialize/")], ["loaded values and files"])
p("C14", "A multi-output GP behaves as independent GPs around a common mean",
  "After any sequence of computations, additions, recomputations, parameter changes and loads, each output of a multi-output model predicts exactly what a single-output Gaussian process with the same kernel parameters gives for that output's data centred on the model's mean function, plus that mean; this includes mean functions that depend on the data. Tuning the outputs in parallel gives each output's own parameters and never mixes outputs.",
  ["histories", "schedules"], "every history of updates, number of outputs and mean function, with and without threads",
  "Tests compare one batch-computed model.",
  ["model/multi_gp.hpp", "model/multi_gp/parallel_lf_opt.hpp"], [("MultiGP::compute/add_sample/recompute", "model/multi_gp.hpp")], ["mu, sigma, query, observations, gp_models"])
p("C15", "A sparsified GP keeps a bounded, paired subset of its data",
  "Whatever data it is given, in one batch or one by one, a sparsified Gaussian process never keeps more than the configured number of points, keeps all of them while they fit, and otherwise removes, one at a time, a point whose summed distance to its nearest neighbours (as many as there are input dimensions) is smallest. The points kept are a subset in the original order, each with its own observation, and predictions are those of an exact Gaussian process on them.",
  ["inputs", "histories", "schedules"], "every data set (including duplicates and ties), limit and order of additions, with and without threads",
  "Tests check the number of points and the prediction error of one example.",
  ["model/sparsified_gp.hpp"], [("_sparsify", "model/sparsified_gp.hpp")], ["samples(), observations(), mu, sigma"])
p("C16", "Kernel and mean parameters read back as set and define the function",
  "For every kernel and mean function, the parameter vector read back is the one last set, has the announced size (with the noise as last kernel parameter exactly when it is tuned), and the kernel value, noise on the diagonal and mean value are those of the documented formula for these parameters; the announced gradient is the derivative of that value with respect to each parameter. Kernels are symmetric in their arguments.",
  ["histories", "inputs"], "every sequence of parameter updates and evaluations, every dimension and every kernel and mean function",
  "Tests check gradients at some random points for a part of the kernels, never after updates.",
  ["kernel/*.hpp", "mean/*.hpp"], [("BaseKernel set_h_params/h_params", "kernel/kernel.hpp")], ["h_params, operator(), grad"])
p("C17", "Acquisition functions use the current model and their documented formula",
  "The value of each acquisition function at a point is the documented function of the model's current mean and variance there, of the aggregator, of its parameters and (for GP-UCB and the UCB of IMGPO) of the iteration, at every time of its life, even if the model gained data since the last call (an expected-improvement object is used with one aggregator and one model, which only gains data; the iteration is counted from one in GP-UCB's formula); the expected improvement is never negative, and zero before any data or where the model is certain. Evaluating an acquisition function never changes the model.",
  ["histories", "inputs"], "every sequence of model updates and evaluations, aggregators and iterations",
  "Tests do not evaluate acquisition functions directly.",
  ["acqui/ucb.hpp", "acqui/gp_ucb.hpp", "acqui/ei.hpp", "experimental/acqui/eci.hpp", "experimental/acqui/ucb_imgpo.hpp"], [("EI cache keyed by the number of samples", "acqui/ei.hpp")], ["operator()"])
p("C18", "Bounded optimisation never leaves the unit box",
  "When called in bounded mode, every built-in inner optimiser only evaluates the objective at points whose coordinates all lie in [0,1] and returns such a point, whatever the objective, its gradient and the starting point (inside or outside the box), and even if the same object was used before in another mode or dimension. (For the NLopt wrappers: objectives with finite values and gradients, and algorithms which NLopt documents as supporting bounds.)",
  ["inputs", "histories"], "every objective (including discontinuous and adversarial gradients), starting point, dimension and sequence of calls",
  "Tests check the result of a few optimisations of smooth functions started inside the box.",
  ["opt/*.hpp"], [("clamping in Rprop/GradientAscent/Adam", "opt/"), ("NLOpt bounds", "opt/nlopt_base.hpp")], ["points at which the objective is evaluated; returned point"])
p("C19", "Optimisers return the best point they may return",
  "Rprop returns the best of the points it evaluated, hence never worse than its (clamped) start; grid search evaluates every point of the regular grid and returns a maximiser over it; parallel repetition runs the inner optimiser the given number of times from starts within epsilon of the given one, inside the box when bounded, with the same bounded flag, and returns the best of the results; a chain feeds each optimiser with the result of the previous one and the same bounded flag and returns the last result; an NLopt wrapper gives its engine the given start and the value and gradient of the objective to maximise, with at most the configured number of evaluations: local methods never return a worse point than the (clamped) start, and gradient-based ones find the maximum of a concave quadratic over the box or, unbounded, over the whole space, whatever calls the object served before.",
  ["inputs", "schedules"], "every objective, starting point, number of repetitions and thread schedule",
  "Tests check convergence on smooth functions.",
  ["opt/rprop.hpp", "opt/grid_search.hpp", "opt/parallel_repeater.hpp", "opt/chained.hpp", "opt/random_point.hpp", "opt/nlopt_base.hpp", "opt/nlopt_grad.hpp", "opt/nlopt_no_grad.hpp"], [("best_params in Rprop", "opt/rprop.hpp"), ("par::max", "tools/parallel.hpp")], ["returned point and evaluated points"])
p("C20", "Gradient optimisers follow their update rule step by step",
  "For every sequence of gradients, the points visited by Rprop, gradient ascent (with and without momentum) and Adam are those of their documented update rules for the configured parameters, within the iteration budget, stopping early exactly when the documented tolerance is met.",
  ["inputs"], "every sequence of gradients (sign changes, zeros, ties), parameters and dimension",
  "Tests only look at the final point for convex functions.",
  ["opt/rprop.hpp", "opt/gradient_ascent.hpp", "opt/adam.hpp"], [("update rules", "opt/")], ["points at which the objective is evaluated"])
p("C22", "Parallel tools give the sequential result under every schedule",
  "The parallel loop and for-each apply their body exactly once to each index or element, the parallel maximum returns a maximal result (the initial one only if nothing is better), sort yields the sorted permutation, replicate runs exactly the given number of bodies, and none returns before all bodies have finished; with or without threads.",
  ["schedules", "inputs"], "every schedule of the worker threads, range and content",
  "No test uses these tools directly with threads.",
  ["tools/parallel.hpp"], [("par::loop, for_each, max, sort, replicate", "tools/parallel.hpp")], ["calls of the bodies and results"])
p("C23", "Seeded random generators are reproducible, independent and in range",
  "A generator created or reseeded with a given seed yields the same sequence as any other generator of the same type, bounds and seed, however their uses interleave with other generators; generators with different seeds, unseeded generators, and the generators of different threads yield different sequences. Values always lie within the given bounds (both included for integers). Random vectors and hypercube samples have the requested size and range and the documented distribution (uniform, or normal around 0 with deviation 10), with independent coordinates, and a Latin hypercube sample has exactly one point per stratum in each dimension.",
  ["histories", "inputs"], "every interleaving of draws, reseeds and resets of several generators",
  "Tests check one seed once.",
  ["tools/random_generator.hpp"], [("RandomGenerator", "tools/random_generator.hpp")], ["drawn values"])
p("C24", "Initial designs evaluate the documented set of points",
  "Each initialiser evaluates exactly the documented points, each once, and records them in evaluation order: none, the requested number of points of the unit box, that number of points of the grid, every point of the full regular grid with bins+1 values per dimension, or a Latin hypercube with one point per stratum in each dimension. Random points are drawn independently, coordinate by coordinate: no two are the same, every value of a grid occurs, and unbounded runs draw points outside the box.",
  ["inputs", "configurations"], "every dimension, number of samples and of bins, every random draw",
  "Tests check counts for one or two configurations.",
  ["init/*.hpp"], [("init functors", "init/")], ["evaluated points, samples()"])
p("C25", "The Pareto set is exactly the set of non-dominated points",
  "For every non-empty set of points and any number of objectives, the Pareto set contains exactly one representative or more of each non-dominated objective vector and nothing dominated, each entry being one of the given entries, sorted in decreasing lexicographic order of objectives.",
  ["inputs", "schedules"], "every set of points, with ties and duplicates, two or more objectives, with and without threads",
  "No test covers the Pareto tools on non-trivial sets.",
  ["experimental/tools/pareto.hpp", "experimental/bayes_opt/bo_multi.hpp"], [("pareto_set", "experimental/tools/pareto.hpp")], ["pareto_set()"])
p("C26", "The hypervolume is the volume dominated by the points",
  "For every set of points and reference point not above any of them, the hypervolume of the set is the volume of the region dominated by at least one point and bounded by the reference; the non-dominated filter keeps a subset with the same dominated region and without dominated points. The expected hypervolume improvement of a candidate whose outcome is (almost) certain is the increase of that volume, and it is the same for every algorithm offered.",
  ["inputs"], "every set of points on a grid, dimension and number of objectives",
  "No test computes a hypervolume.",
  ["src/hv/hypervol.c", "src/hv/hypervol.h", "src/ehvi/ehvi_calculations.cc", "src/ehvi/ehvi_sliceupdate.cc", "src/ehvi/ehvi_hvol.cc"], [("CalculateHypervolume, FilterNondominatedSet", "src/hv/hypervol.c"), ("ehvi2d, ehvi3d_*", "src/ehvi/")], ["returned value and reordered front"])
p("C27", "Constrained optimisation trains on, and reports, the right pairs",
  "In constrained optimisation, at each proposal the objective model and the constraint model hold exactly the objective parts and constraint parts of every recorded evaluation, in order. The best observation reported is the first maximum of the aggregated objective among the feasible evaluations (those whose constraint values have a positive product; all evaluations if none is feasible), and the best sample is the sample of that evaluation; without constraints it behaves as plain optimisation.",
  ["histories"], "every sequence of objective and constraint values, numbers of constraints and resumed calls",
  "One test checks the final result of one run.",
  ["experimental/bayes_opt/cboptimizer.hpp"], [("_split_observations, best_sample", "experimental/bayes_opt/cboptimizer.hpp")], ["data given to user-defined models, best_observation, best_sample"])
p("C28", "Tree-based optimisation only evaluates fresh cell centres of a partition",
  "The tree-based optimiser (IMGPO) evaluates only centres of cells obtained by repeatedly cutting the unit box in three along a longest side, starting with the box itself. Without initial design, it never evaluates the same point twice in a run, even if the run is resumed, evaluates a cell's children only after the cell's own centre, counts one iteration per recorded evaluation and calls the statistics once for each; it ends no earlier than its stopping criterion holds. Its choices depend on the observations only through the aggregator.",
  ["inputs", "histories"], "every objective function and dimension",
  "One test checks convergence on one function.",
  ["experimental/bayes_opt/imgpo.hpp"], [("tree expansion", "experimental/bayes_opt/imgpo.hpp")], ["evaluated points, counters"])
p("C29", "Multi-objective runs scalarise or model every recorded objective",
  "In ParEGO, each training of the model (one per call and one per recorded evaluation) turns the objectives of all recorded evaluations into the augmented weighted maximum with one and the same freshly drawn weight vector, non-negative and summing to one; copying, recomputing or tuning the model keeps the weights, and the raw observations recorded by the optimiser are unchanged. In the other multi-objective optimisers, after an update there is one model per objective, trained with that objective of every recorded evaluation, and the Pareto data is the Pareto set of the recorded evaluations, each with its own point. The hypervolume-based optimiser updates both before every proposal, starts one inner optimisation from every point of the Pareto data, maximises the expected hypervolume improvement for the configured reference under the models' means and standard deviations, and evaluates the best candidate found.",
  ["histories", "inputs", "schedules"], "every history of observations, number of objectives, reset or resumed calls and failures, with and without threads",
  "Tests do not look at the scalarised data, at the per-objective models or at the maximised value.",
  ["experimental/model/gp_parego.hpp", "experimental/bayes_opt/parego.hpp", "experimental/bayes_opt/bo_multi.hpp", "experimental/bayes_opt/ehvi.hpp", "experimental/acqui/ehvi.hpp"], [("_scalarize_obs", "experimental/model/gp_parego.hpp"), ("_update_models", "experimental/bayes_opt/bo_multi.hpp"), ("Ehvi::optimize", "experimental/bayes_opt/ehvi.hpp")], ["observations of the model, models(), pareto_data(), values given to the inner optimiser"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
