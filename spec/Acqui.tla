-------------------------------- MODULE Acqui --------------------------------
(* Acquisition functions: objects bound to a model that learns while they live. The model is its predictions (a mean
   per output and a standard deviation at each point of a small set) and its samples; the value of an acquisition
   function is a function of the model at the time of the evaluation. Values are fixed point, x 10000.              *)
EXTENDS Integers, Sequences, FiniteSets, AcquiTables
VARIABLES cfg, mod, con, objs
aqVars == <<cfg, mod, con, objs>>
\* a model: samp (sequence of points), mu[point] (sequence, one per output), sd[point]
Alpha4 == <<0, 5000, 22500>>      \* alpha x 10000 of each variant
JitQ == <<0, 1, 2>>               \* exploration parameter, in quarters
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
Aggs == {"first", "sum", "neg", "last"}
Agg(a, y) == CASE a = "first" -> y[1] [] a = "sum" -> SumS(y) [] a = "neg" -> -y[1] [] a = "last" -> y[Len(y)]
Max(S) == CHOOSE m \in S : \A n \in S : n <= m
\* best predicted value at the samples of the model
FMax(m, a) == Max({Agg(a, m.mu[m.samp[i]]) : i \in DOMAIN m.samp})
\* deviations are 0..3, or 4 for one thousandth
Tiny == 4
Times(c, s) == IF s = Tiny THEN (c + 500) \div 1000 ELSE c * s
EIQ(q, s) == IF s = Tiny THEN (IF q > 0 THEN 2500 * q ELSE IF q = 0 THEN 4 ELSE 0) ELSE EIOf(q, s)
EI(m, k, a, x) == IF m.samp = <<>> \/ m.sd[x] = 0 THEN 0
                  ELSE EIQ(4 * (Agg(a, m.mu[x]) - FMax(m, a)) - JitQ[k], m.sd[x])
\* probability that the constraint is at least one; where the constraint is certain, the code answers one: left free
PF(m, a, x) == IF m.samp = <<>> THEN {10000}
               ELSE IF m.sd[x] = 0 THEN {10000, IF Agg(a, m.mu[x]) >= 1 THEN 10000 ELSE 0}
               ELSE IF m.sd[x] = Tiny THEN {LET d == Agg(a, m.mu[x]) - 1 IN IF d > 0 THEN 10000 ELSE IF d = 0 THEN 5000 ELSE 0}
               ELSE {PhiOf(Agg(a, m.mu[x]) - 1, m.sd[x])}
Values(o, a, x) ==
  CASE o.kind = "ucb"   -> {10000 * Agg(a, mod.mu[x]) + Times(Alpha4[cfg.k], mod.sd[x])}
    [] o.kind = "gpucb" -> {10000 * Agg(a, mod.mu[x]) + Times(BetaOf(cfg.k, o.it, cfg.din), mod.sd[x])}
    [] o.kind = "imgpo" -> {10000 * Agg(a, mod.mu[x]) + Times(ZetaOf(cfg.k, o.it), mod.sd[x])}
    [] o.kind = "ei"    -> {EI(mod, cfg.k, a, x)}
    [] o.kind = "eci"   -> {((EI(mod, cfg.k, a, x) \div 10) * (p \div 10)) \div 100 : p \in PF(con, a, x)}
Near(v, w, tol) == v - w <= tol /\ w - v <= tol
Abs(v) == IF v < 0 THEN -v ELSE v
\* tolerance: rounding of the tables (multiplied by the deviation), and of the product
Tol(o) == IF o.kind = "eci" THEN 250 ELSE 8

NoModel == [samp |-> <<>>, mu |-> <<>>, sd |-> <<>>]
AqInit == cfg = [k |-> 0] /\ mod = NoModel /\ con = NoModel /\ objs = <<>>
NewCfg(c, m, n) == cfg' = c /\ mod' = m /\ con' = n /\ objs' = <<>>
Make(kind, it) == objs' = Append(objs, [kind |-> kind, it |-> it, agg |-> ""]) /\ UNCHANGED <<cfg, mod, con>>
\* the model gains a sample and its predictions change
Gain(x, mu, sd) == mod' = [samp |-> Append(mod.samp, x), mu |-> mu, sd |-> sd] /\ UNCHANGED <<cfg, con, objs>>
GainC(x, mu, sd) == con' = [samp |-> Append(con.samp, x), mu |-> mu, sd |-> sd] /\ UNCHANGED <<cfg, mod, objs>>
\* an improvement-based object is used with one aggregator
Eval(i, a, x, v) ==
  /\ objs[i].agg \in {"", a} \/ objs[i].kind \in {"ucb", "gpucb", "imgpo"}
  /\ \E w \in Values(objs[i], a, x) : Near(v, w, Tol(objs[i]))
  /\ objs[i].kind \in {"ei", "eci"} => v >= 0
  /\ objs' = [objs EXCEPT ![i].agg = a] /\ UNCHANGED <<cfg, mod, con>>
=============================================================================
