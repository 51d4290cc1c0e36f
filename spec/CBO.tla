--------------------------------- MODULE CBO ---------------------------------
(* Constrained optimisation (experimental/bayes_opt/cboptimizer.hpp). An evaluation returns dout objectives followed by ncon
   constraint values; two models are trained, one on each part.  cfg = [dout, ncon, ninit, iters, hp]                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, pc, hist, mod, con, it, tot, left, pend
cboVars == <<cfg, pc, hist, mod, con, it, tot, left, pend>>
ObjOf(y) == SubSeq(y, 1, cfg.dout)
ConOf(y) == SubSeq(y, cfg.dout + 1, cfg.dout + cfg.ncon)
Obj(h) == [i \in DOMAIN h |-> <<h[i][1], ObjOf(h[i][2])>>]
Con(h) == IF cfg.ncon = 0 THEN <<>> ELSE [i \in DOMAIN h |-> <<h[i][1], ConOf(h[i][2])>>]
Train(h) == mod' = Obj(h) /\ con' = Con(h) /\ pc' = "loop"
CInit(c) == cfg = c /\ pc = "idle" /\ hist = <<>> /\ mod = <<>> /\ con = <<>> /\ it = 0 /\ tot = 0 /\ left = 0 /\ pend = {}
Start(reset) ==
  /\ pc = "idle" /\ it' = 0 /\ tot' = IF reset THEN 0 ELSE tot
  /\ hist' = IF reset THEN <<>> ELSE hist
  /\ (IF tot' = 0 /\ cfg.ninit > 0 THEN pc' = "init" /\ left' = cfg.ninit /\ UNCHANGED <<mod, con>> ELSE Train(hist') /\ left' = 0)
  /\ pend' = {} /\ UNCHANGED cfg
EvalInit(x, ok, y) ==
  /\ pc = "init"
  /\ IF ok THEN /\ hist' = Append(hist, <<x, y>>) /\ left' = left - 1
                /\ (IF left = 1 THEN Train(hist') ELSE UNCHANGED <<pc, mod, con>>)
     ELSE pc' = "idle" /\ UNCHANGED <<hist, left, mod, con>>
  /\ UNCHANGED <<cfg, it, tot, pend>>
Propose == pc = "loop" /\ it < cfg.iters /\ pc' = "eval" /\ UNCHANGED <<cfg, hist, mod, con, it, tot, left, pend>>
EvalLoop(x, ok, y) == /\ pc = "eval"
                      /\ IF ok THEN hist' = Append(hist, <<x, y>>) /\ pc' = "stat" ELSE pc' = "idle" /\ UNCHANGED hist
                      /\ UNCHANGED <<cfg, mod, con, it, tot, left, pend>>
Due == cfg.hp > 0 /\ (it + 1) % cfg.hp = 0
\* statistics, then both models learn the new pair
Stat == /\ pc = "stat" /\ mod' = Obj(hist) /\ con' = Con(hist)
        /\ IF Due THEN pc' = "tune" /\ pend' = {"m"} \cup (IF cfg.ncon > 0 THEN {"c"} ELSE {}) /\ UNCHANGED <<it, tot>>
           ELSE pc' = "loop" /\ it' = it + 1 /\ tot' = tot + 1 /\ UNCHANGED pend
        /\ UNCHANGED <<cfg, hist, left>>
Tune(w) == /\ pc = "tune" /\ w \in pend /\ pend' = pend \ {w}
           /\ IF pend' = {} THEN pc' = "loop" /\ it' = it + 1 /\ tot' = tot + 1 ELSE UNCHANGED <<pc, it, tot>>
           /\ UNCHANGED <<cfg, hist, mod, con, left>>
End == pc = "loop" /\ it >= cfg.iters /\ pc' = "idle" /\ UNCHANGED <<cfg, hist, mod, con, it, tot, left, pend>>
\* --- the reported best
RECURSIVE Sum(_), Prod(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Agg(a, y) == CASE a = "first" -> y[1] [] a = "sum" -> Sum(y) [] a = "neg" -> -y[1] [] OTHER -> y[Len(y)]
Feasible == {i \in DOMAIN hist : cfg.ncon = 0 \/ Prod(ConOf(hist[i][2])) > 0}
Cand == IF Feasible = {} THEN DOMAIN hist ELSE Feasible
Best(a) == CHOOSE i \in Cand : \A j \in Cand : Agg(a, ObjOf(hist[j][2])) < Agg(a, ObjOf(hist[i][2])) \/ (Agg(a, ObjOf(hist[j][2])) = Agg(a, ObjOf(hist[i][2])) /\ i <= j)
------------------------------------------------------------------------------
Trained == pc \in {"eval", "tune"} \/ (pc = "loop") => (mod = Obj(hist) /\ con = Con(hist))
NoConNoModel == cfg.ncon = 0 => con = <<>>
Counters == it <= tot /\ (pc = "loop" => it <= cfg.iters)
BestFeasible == (hist # <<>> /\ Feasible # {}) => \A a \in {"first", "sum", "neg", "last"} : Best(a) \in Feasible
=============================================================================
