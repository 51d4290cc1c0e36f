"""Property -> (module, function), and the level notes of the manifest."""
CHECKS, NOTES = {}, {}


def reg(pid, mod, note, fn=None):
    CHECKS[pid] = (mod, fn or pid.lower())
    NOTES[pid] = note


_BO = ("BO.tla model-checked exhaustively for small constants (%s); random behaviours of it are replayed in the real BOptimizer "
       "with recording components, and every recorded execution is accepted or rejected by TLC. Trusts the recording components, "
       "TLC and the compiler; behaviours are bounded (calls, iterations, values).")
reg("C01", "bo", _BO % "model holds the history at each proposal, counters")
reg("C02", "bo", _BO % "reset/resume, append-only history")
reg("C03", "bo", _BO % "failures record nothing, every failure position")
reg("C04", "bo", _BO % "first maximum under every aggregator")
reg("C05", "bo", _BO % "proposal only if no criterion holds, return only if one holds")
reg("C06", "bo", _BO % "tuning schedule")
_GP = ("GP.tla models a Gaussian process as cached quantities tagged with what they were computed from; TLC checks exhaustively that %s; "
       "TLC-generated histories are replayed in the real GP (6 kernel/mean/tuner combinations) and every recorded execution is accepted or "
       "rejected by TLC, numeric values being compared with an independent long double reference. Bounded histories and dimensions; "
       "values compared within a condition-scaled tolerance.")
reg("C09", "gp", _GP % "updates keep an exact model exact, incremental = batch")
reg("C10", "gp", _GP % "the cached inverse and derived quantities are never stale")
reg("C11", "gp", _GP % "tuning leaves an exact model exact with a current criterion")
reg("C12", "gp", _GP % "loading an exact model gives an exact model")
reg("C13", "archive", "Archive.tla (a store of objects) is model-checked for isolation; TLC-generated histories of saves and loads are replayed in "
    "both archives in a scratch directory and the recorded executions accepted or rejected by TLC. Bounded sizes (4x4, 6, lists of 5), a table of numbers.")
reg("C20", "opt", "Opt.tla gives the update rules as integer state machines (model-checked: box, budget, step range); TLC generates values and gradients, the real "
    "optimisers receive them, and TLC accepts or rejects every visited point. Fixed learning rates; bounded iterations; Adam to 1e-3.")
reg("C18", "opt", "Box.tla models optimiser objects whose engine keeps its settings between calls (model-checked: no point outside the box in a bounded call); "
    "TLC-generated histories of calls run on 25 real optimisers with adversarial objectives, TLC accepts or rejects every class of evaluated or returned point.")
reg("C19", "opt", "Meta.tla and Opt.tla give what grid search, repetition, chains and Rprop run and may return (model-checked: nothing better was available); "
    "TLC-generated value tables, inner results and gradients drive the real optimisers (with and without TBB), TLC accepts or rejects every evaluation and result.")
reg("C22", "par", "Par.tla models bodies interleaved over threads and the reduction tree of the maximum (model-checked with every splitting, join order and interleaving "
    "for up to 4 bodies); TLC-generated operations run on the real tools with and without TBB, TLC accepts or rejects the recorded begin/end/return events.")
reg("C23", "rnd", "Rand.tla: a draw is a function of type, bounds, seed and operations since seeding; RandMC checks that an engine with a caching distribution refines it; "
    "TLC-generated interleavings run on the real generators in two processes, TLC learns the function from the draws and rejects contradictions, ranges and strata.")
reg("C24", "design", "Design.tla states which points each design may evaluate next and when it is complete (model-checked: complete designs are the documented sets); "
    "TLC-generated configurations run in the real BOptimizer, TLC accepts or rejects every evaluation and the recorded history.")
_MO = ("MO.tla defines dominance, Pareto set and dominated volume on an integer grid as functions of a growing archive (model-checked: %s); "
       "TLC-generated archives run through the real code, TLC accepts or rejects every answer after every addition.")
reg("C25", "mo", _MO % "nothing dominated is kept, everything is covered")
reg("C26", "mo", _MO % "the front has the volume of the whole set, volume never decreases")
reg("C27", "cbo", "CBO.tla is the constrained run loop with its two models (model-checked: both models hold their part of the history at every proposal, the best is feasible); "
    "TLC-generated behaviours, with failures and resumed calls, are replayed in the real CBOptimizer with recording components and accepted or rejected by TLC.")
reg("C17", "acqui", "Acqui.tla gives each acquisition value as a fixed-point function of the model at the time of the call (model-checked: a cache keyed by the number of samples "
    "is never stale while the model gains data); TLC-generated histories of several objects and learning models run on the real functions, TLC accepts or rejects every value.")
reg("C16", "kern", "Kern.tla: a kernel or mean object is its last parameter version (model-checked: derived quantities, noise and copies follow it); TLC-generated histories of "
    "updates, copies and evaluations run on 6 kernels and 7 means, TLC requires that the current version explains every value, gradient and parameter vector.")
reg("C15", "sparse", "Sparse.tla gives the sets of points that may be kept (model-checked over all small data sets with ties and duplicates); TLC-generated batches, additions, "
    "recomputations, copies and reloads run on the real model, sequential and with TBB, TLC accepts or rejects the kept pairs; predictions are compared with an independent reference.")
reg("C14", "multigp", "MultiGP.tla: data, one kernel version per output, one mean version and what is out of date (model-checked against sub-models that keep a centring and a "
    "decomposition); TLC-generated histories over several models run on the real class (5 means, sequential and TBB, also over the sparsified model); TLC accepts or rejects "
    "states, tuning and predictions, compared with an independent single-output reference.")
reg("C07", "named", "Named.tla: a configuration is a sequence of named components, a run uses exactly these and the defaults (model-checked: forwarding through a chain of complete "
    "signatures finds every component, for every order); TLC-generated configurations of six optimisers are compiled and run with components that tell that they are used.")
reg("C08", "statfiles", "Stat.tla adds to the run loop the lines each statistic writes per iteration (model-checked: between iterations the files tell every evaluation of the run in order, "
    "silent when disabled); TLC-generated runs with failures, resumed calls and manual additions write real files, TLC accepts or rejects the lines added at every iteration.")
reg("C28", "tree", "Tree.tla: points are centres of ternary cells cut along a longest side, fresh, with an evaluated parent (model-checked: an algorithm that keeps the leaves of a partition "
    "refines it); the real optimiser runs TLC-generated calls over mock and Gaussian-process models, TLC accepts or rejects every evaluation, counter and result.")
reg("C29", "moo", "Parego.tla (run loop and scalarisation, weights read off unit vectors) and Ehvi.tla (run loop, models and Pareto data per update, expected hypervolume "
    "improvement as a fixed-point sum over strips), both model-checked; TLC-generated histories run on the real classes (sequential and TBB), TLC accepts or rejects every "
    "training, maximised value and choice.", "c29")
