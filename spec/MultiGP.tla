-------------------------------- MODULE MultiGP -------------------------------
(* Multi-output Gaussian processes: several models that can be copied, saved and loaded. A model is its data, one kernel
   parameter version per output, one version of the parameters of the common mean function, and what is out of date:
   dk (the kernel parameters of some output changed since the decomposition), dm (the mean changed since the
   observations were centred), pd (a batch was given without computing the decomposition). When nothing is out of date, every output predicts what a single-output model with the same
   kernel parameters gives on this output centred on the mean function, plus this mean.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT HasMean       \* the mean function has parameters
VARIABLES ms, store, nextv
mgVars == <<ms, store, nextv>>
Slots == 1..3
None == [d |-> <<0, 0>>, xs |-> <<>>, ys |-> <<>>, kv |-> <<>>, mv |-> 1, dk |-> FALSE, dm |-> FALSE, pd |-> FALSE]
Fresh(d) == [None EXCEPT !.d = d, !.kv = [i \in 1..d[2] |-> 1]]
Exact(m) == ~m.dk /\ ~m.dm
MInit == ms = [s \in Slots |-> None] /\ store = <<None, None>> /\ nextv = 100
Upd(s, m) == ms' = [ms EXCEPT ![s] = m] /\ UNCHANGED <<store, nextv>>
New(s, d) == Upd(s, IF d[1] = 0 THEN None ELSE Fresh(d))
\* a batch: the kernels are reset when a dimension changes, the mean when the number of outputs changes
Dims(m, d) == [m EXCEPT !.d = d, !.kv = IF m.d = d THEN m.kv ELSE [i \in 1..d[2] |-> 1], !.mv = IF m.d[2] = d[2] THEN m.mv ELSE 1]
Compute(s, d, xs, ys, k) == Upd(s, [Dims(ms[s], d) EXCEPT !.xs = xs, !.ys = ys, !.dk = ~k, !.pd = ~k, !.dm = FALSE])
\* an addition centres all the observations again
CanAdd(s, d) == (ms[s].d = <<0, 0>> \/ ms[s].d = d) /\ ~ms[s].dk
Add(s, d, x, y) == CanAdd(s, d) /\ LET m == Dims(ms[s], d) IN Upd(s, [m EXCEPT !.xs = Append(@, x), !.ys = Append(@, y), !.dm = FALSE])
SetK(s, i, v) == Upd(s, [ms[s] EXCEPT !.kv[i] = v, !.dk = (ms[s].xs # <<>>)])
SetM(s, v) == HasMean /\ Upd(s, [ms[s] EXCEPT !.mv = v, !.dm = (ms[s].xs # <<>>)])
\* recompute(update of the centred observations, update of the kernel)
Recompute(s, om, fk) == ms[s].xs # <<>> /\ (ms[s].dk => fk) /\ Upd(s, [ms[s] EXCEPT !.dk = IF fk THEN FALSE ELSE @, !.pd = IF fk THEN FALSE ELSE @, !.dm = IF om THEN FALSE ELSE @])
\* parallel tuning gives new kernel parameters to each output, from its own data
Tune(s, kv) == ms[s].xs # <<>> /\ Exact(ms[s]) /\ ms' = [ms EXCEPT ![s].kv = kv] /\ UNCHANGED <<store, nextv>>
Copy(s, t) == ms' = [ms EXCEPT ![t] = ms[s]] /\ UNCHANGED <<store, nextv>>
Save(s, p) == ms[s].xs # <<>> /\ ~ms[s].pd /\ store' = [store EXCEPT ![p] = ms[s]] /\ UNCHANGED <<ms, nextv>>
Load(s, p, rec) == store[p].xs # <<>> /\ Upd(s, IF rec THEN [store[p] EXCEPT !.dk = FALSE, !.dm = FALSE] ELSE store[p])
Query == UNCHANGED mgVars
=============================================================================
