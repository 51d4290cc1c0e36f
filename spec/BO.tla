--------------------------------- MODULE BO ---------------------------------
(* The Bayesian-optimisation run loop (bayes_opt/bo_base.hpp, boptimizer.hpp) with its stopping criteria.
   One action per observable step of the loop: the components plugged in by the user (evaluated function,
   acquisition optimiser, statistics, hyper-parameter tuning) are the points where the code can be observed.  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,    \* configuration: iters, hp, ninit, crit (names of the active criteria), goal, total, rn, rd, pred
  pc,     \* where the run is
  data,   \* recorded pairs <<x, y>>: x identifies a point, y is a sequence of integers (one per output)
  cur,    \* iterations of this call
  tot,    \* iterations since the last reset
  model,  \* pairs held by the model
  left,   \* evaluations left in the initial design
  afun,   \* aggregator of this call
  tunes,  \* number of hyper-parameter optimisations in this call
  reset   \* was the current call a reset
boVars == <<cfg, pc, data, cur, tot, model, left, afun, tunes, reset>>

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Aggs == {"first", "sum", "neg", "last"}
Agg(a, y) == CASE a = "first" -> y[1]
               [] a = "sum" -> SumSeq(y)
               [] a = "neg" -> -y[1]
               [] a = "last" -> y[Len(y)]

\* index of the first maximum of the aggregated observations
BestIdx(a, d) == CHOOSE i \in DOMAIN d :
                    \A j \in DOMAIN d : /\ Agg(a, d[j][2]) <= Agg(a, d[i][2])
                                        /\ j < i => Agg(a, d[j][2]) < Agg(a, d[i][2])
BestVal(a, d) == Agg(a, d[BestIdx(a, d)][2])

Holds(c) == CASE c = "iters" -> cur >= cfg.iters
              [] c = "goal"  -> data # <<>> /\ BestVal(afun, data) >= cfg.goal
              [] c = "total" -> tot >= cfg.total
              [] c = "pred"  -> data # <<>> /\ BestVal(afun, data) * cfg.rd > cfg.rn * Agg(afun, cfg.pred)
Stop == \E i \in DOMAIN cfg.crit : Holds(cfg.crit[i])

HpDue == cfg.hp > 0 /\ (cur + 1) % cfg.hp = 0

BOInit(c) ==
  /\ cfg = c /\ pc = "idle" /\ data = <<>> /\ cur = 0 /\ tot = 0 /\ model = <<>> /\ left = 0
  /\ afun = "first" /\ tunes = 0 /\ reset = TRUE

\* the dynamic parameters can change between two calls
SetParams(it, hp) ==
  /\ pc = "idle" /\ cfg' = [cfg EXCEPT !.iters = it, !.hp = hp]
  /\ UNCHANGED <<pc, data, cur, tot, model, left, afun, tunes, reset>>

\* manual addition of a pair: refused (error to the caller, nothing recorded) if a component is not finite
UserAdd(x, ok, y) ==
  /\ pc = "idle"
  /\ data' = IF ok THEN Append(data, <<x, y>>) ELSE data
  /\ UNCHANGED <<cfg, pc, cur, tot, model, left, afun, tunes, reset>>

\* optimize(f, afun, reset) is called
Start(r, a) ==
  /\ pc = "idle"
  /\ LET d == IF r THEN <<>> ELSE data
         t == IF r THEN 0 ELSE tot
         n == IF t = 0 THEN cfg.ninit ELSE 0
     IN /\ data' = d /\ tot' = t /\ left' = n
        /\ pc' = IF n > 0 THEN "init" ELSE "head"
        /\ model' = IF n > 0 THEN <<>> ELSE d
  /\ cur' = 0 /\ afun' = a /\ tunes' = 0 /\ reset' = r
  /\ UNCHANGED cfg

\* the user function is called on a point x and gives a value y, or fails (exception, NaN, infinity)
EvalInit(x, ok, y) ==
  /\ pc = "init"
  /\ IF ok
     THEN /\ data' = Append(data, <<x, y>>)
          /\ left' = left - 1
          /\ pc' = IF left = 1 THEN "head" ELSE "init"
          /\ model' = IF left = 1 THEN data' ELSE model
     ELSE /\ pc' = "failed" /\ UNCHANGED <<data, left, model>>
  /\ UNCHANGED <<cfg, cur, tot, afun, tunes, reset>>

Propose ==
  /\ pc = "head" /\ ~Stop
  /\ pc' = "eval"
  /\ UNCHANGED <<cfg, data, cur, tot, model, left, afun, tunes, reset>>

EvalLoop(x, ok, y) ==
  /\ pc = "eval"
  /\ IF ok THEN data' = Append(data, <<x, y>>) /\ pc' = "stats"
           ELSE pc' = "failed" /\ UNCHANGED data
  /\ UNCHANGED <<cfg, cur, tot, model, left, afun, tunes, reset>>

\* statistics see the new pair; then the model learns it
Stats ==
  /\ pc = "stats"
  /\ model' = Append(model, data[Len(data)])
  /\ IF HpDue THEN pc' = "tune" /\ UNCHANGED <<cur, tot>>
              ELSE pc' = "head" /\ cur' = cur + 1 /\ tot' = tot + 1
  /\ UNCHANGED <<cfg, data, left, afun, tunes, reset>>

Tune ==
  /\ pc = "tune"
  /\ tunes' = tunes + 1 /\ cur' = cur + 1 /\ tot' = tot + 1 /\ pc' = "head"
  /\ UNCHANGED <<cfg, data, model, left, afun, reset>>

Return ==
  /\ pc = "head" /\ Stop /\ pc' = "idle"
  /\ UNCHANGED <<cfg, data, cur, tot, model, left, afun, tunes, reset>>

\* the error reaches the caller
Raise ==
  /\ pc = "failed" /\ pc' = "idle"
  /\ UNCHANGED <<cfg, data, cur, tot, model, left, afun, tunes, reset>>

------------------------------------------------------------------------------
(* Properties of the design *)
TypeOK == /\ pc \in {"idle", "init", "head", "eval", "stats", "tune", "failed"}
          /\ cur \in Nat /\ tot \in Nat /\ left \in Nat
\* C01: a proposal is made with a model holding exactly the recorded pairs
ModelUpToDate == pc \in {"head", "eval", "tune"} => model = data
StatsSeePrevModel == pc = "stats" => model = SubSeq(data, 1, Len(data) - 1)
\* C02: counters
Counters == cur <= tot \/ pc \in {"failed", "idle", "init"}
ResetCounters == (reset /\ pc # "idle") => cur = tot
\* C05
StopsOnTime == pc = "eval" => ~Stop
BudgetRespected == (pc = "eval" /\ "iters" \in {cfg.crit[i] : i \in DOMAIN cfg.crit}) => cur < cfg.iters
\* C06
TuneSchedule == pc \in {"head", "eval", "stats"} => tunes = IF cfg.hp > 0 THEN cur \div cfg.hp ELSE 0
\* C02/C03: the history only grows, except when a call resets it
AppendOnly == [][\/ data' = data
                 \/ Len(data') = Len(data) + 1 /\ SubSeq(data', 1, Len(data)) = data
                 \/ pc = "idle" /\ pc' # "idle" /\ reset' /\ data' = <<>>]_boVars
\* C03: a failure changes nothing
FailureRecordsNothing == [][pc' = "failed" => data' = data /\ cur' = cur /\ tot' = tot]_boVars
TotMonotone == [][tot' >= tot \/ (pc = "idle" /\ reset')]_boVars
=============================================================================
