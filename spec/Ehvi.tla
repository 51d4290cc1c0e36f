-------------------------------- MODULE Ehvi ---------------------------------
(* Multi-objective runs with one model per objective (experimental/bayes_opt/bo_multi.hpp, ehvi.hpp, experimental/acqui/ehvi.hpp).
   hist = evaluated <<point, objectives>>; mods / front = the history the models / the Pareto data were last computed from (<<>> = never).
   In a run of Ehvi every iteration updates both, starts one inner optimisation from every point of the Pareto data, and evaluates a candidate
   with the largest expected hypervolume improvement. The models of the run are mocks: for objective j trained with the numbers c and for point x
       mean = (x + sum c) % 3,   standard deviation = 1 + (x + sum i c_i) % 2
   so every value of the acquisition is determined by the history. Expectations are x 10000.  cfg = [d, ninit, iters, rx, ry]            *)
EXTENDS Integers, Sequences, FiniteSets, AcquiTables
VARIABLES cfg, pc, hist, mods, front, it, tot, left, inner
ehVars == <<cfg, pc, hist, mods, front, it, tot, left, inner>>
Range(s) == {s[i] : i \in DOMAIN s}
Xs(m) == [i \in DOMAIN m |-> m[i][1]]
Ys(m) == [i \in DOMAIN m |-> m[i][2]]
Col(m, j) == [i \in DOMAIN m |-> m[i][2][j]]
Geq(a, b) == \A j \in DOMAIN a : a[j] >= b[j]
NonDom(S) == {a \in S : ~\E b \in S : Geq(b, a) /\ a # b}
\* admissible Pareto data of the history m: every non-dominated vector, nothing else, with the point it was observed at
ParetoData(m, q) == /\ Range(q) \subseteq Range(m) /\ Cardinality(Range(q)) = Len(q)
                    /\ {p[2] : p \in Range(q)} = NonDom({p[2] : p \in Range(m)})
RECURSIVE Sum(_), WSum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
WSum(s) == IF s = <<>> THEN 0 ELSE Len(s) * s[Len(s)] + WSum(SubSeq(s, 1, Len(s) - 1))
Mu(m, j, x) == (x + Sum(Col(m, j))) % 3
Sd(m, j, x) == 1 + ((x + WSum(Col(m, j))) % 2)
\* expected improvement of objective j over the level a
E(m, j, x, a) == EIOf(4 * (Mu(m, j, x) - a), Sd(m, j, x))
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
\* expected increase of the dominated area: strips between consecutive first objectives
RECURSIVE Strips(_, _, _, _)
Strips(m, N, x, lo) ==
  LET R == {p \in N : p[1] > lo}
      h == IF R = {} THEN cfg.ry ELSE MaxOf({p[2] : p \in R})
      nx == MinOf({p[1] : p \in R})
      wd == E(m, 1, x, lo) - (IF R = {} THEN 0 ELSE E(m, 1, x, nx))
  IN (wd * E(m, 2, x, h)) \div 10000 + (IF R = {} THEN 0 ELSE Strips(m, N, x, nx))
Value(m, x) == Strips(m, NonDom({p[2] : p \in Range(m)}), x, cfg.rx)
Abs(a) == IF a < 0 THEN -a ELSE a
------------------------------------------------------------------------------
EInit(c) == cfg = c /\ pc = "idle" /\ hist = <<>> /\ mods = <<>> /\ front = <<>> /\ it = 0 /\ tot = 0 /\ left = 0 /\ inner = <<>>
\* --- the shared part: samples are added, models and Pareto data are updated on request
Add(x, ok, y) == pc = "idle" /\ hist' = (IF ok THEN Append(hist, <<x, y>>) ELSE hist) /\ UNCHANGED <<cfg, pc, mods, front, it, tot, left, inner>>
UpdateModels == pc = "idle" /\ hist # <<>> /\ mods' = hist /\ UNCHANGED <<cfg, pc, hist, front, it, tot, left, inner>>
UpdateFront == pc = "idle" /\ hist # <<>> /\ front' = hist /\ UNCHANGED <<cfg, pc, hist, mods, it, tot, left, inner>>
\* --- Ehvi
ToLoop == pc' = "loop" /\ inner' = <<>>
Start(reset) ==
  /\ pc = "idle" /\ it' = 0 /\ tot' = IF reset THEN 0 ELSE tot
  /\ hist' = IF reset THEN <<>> ELSE hist
  /\ (IF tot' = 0 THEN pc' = "init" /\ left' = cfg.ninit /\ UNCHANGED inner ELSE ToLoop /\ left' = 0)
  /\ UNCHANGED <<cfg, mods, front>>
EvalInit(x, ok, y) ==
  /\ pc = "init"
  /\ IF ok THEN /\ hist' = Append(hist, <<x, y>>) /\ left' = left - 1
                /\ (IF left = 1 THEN ToLoop ELSE UNCHANGED <<pc, inner>>)
     ELSE pc' = "idle" /\ UNCHANGED <<hist, left, inner>>
  /\ UNCHANGED <<cfg, it, tot, mods, front>>
\* an inner optimisation: started at st, looked at the candidates cs (values vs), returned ret
Inner(st, cs, vs, ret) ==
  /\ pc = "loop" /\ it < cfg.iters
  /\ mods' = hist /\ front' = hist
  /\ st \in {p[1] : p \in Range(hist)} /\ ~\E k \in DOMAIN inner : inner[k].st = st
  /\ (CHOOSE p \in Range(hist) : p[1] = st)[2] \in NonDom({p[2] : p \in Range(hist)})
  /\ \A k \in DOMAIN cs : Abs(vs[k] - Value(hist, cs[k])) <= 40
  /\ \E k \in DOMAIN cs : cs[k] = ret /\ inner' = Append(inner, [st |-> st, ret |-> ret, v |-> vs[k]])
  /\ UNCHANGED <<cfg, pc, hist, it, tot, left>>
Covered == {(CHOOSE p \in Range(hist) : p[1] = inner[k].st)[2] : k \in DOMAIN inner} = NonDom({p[2] : p \in Range(hist)})
EvalLoop(x, ok, y) ==
  /\ pc = "loop" /\ it < cfg.iters /\ Covered
  /\ \E k \in DOMAIN inner : inner[k].ret = x /\ \A n \in DOMAIN inner : inner[n].v <= inner[k].v
  /\ IF ok THEN hist' = Append(hist, <<x, y>>) /\ pc' = "stat" ELSE pc' = "idle" /\ UNCHANGED hist
  /\ inner' = <<>> /\ UNCHANGED <<cfg, it, tot, mods, front, left>>
Stat == pc = "stat" /\ pc' = "loop" /\ it' = it + 1 /\ tot' = tot + 1 /\ UNCHANGED <<cfg, hist, mods, front, left, inner>>
End == pc = "loop" /\ it >= cfg.iters /\ inner = <<>> /\ pc' = "idle" /\ UNCHANGED <<cfg, hist, mods, front, it, tot, left, inner>>
------------------------------------------------------------------------------
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
FreshAtEvaluation == inner # <<>> => mods = hist /\ front = hist
Counters == it <= tot /\ it <= cfg.iters
=============================================================================
