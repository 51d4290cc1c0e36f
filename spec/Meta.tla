--------------------------------- MODULE Meta --------------------------------
(* Meta-optimisers (opt/grid_search.hpp, parallel_repeater.hpp, chained.hpp): what they evaluate or run, and what they may return.
   Points are codes: index tuples for the grid, identifiers of results for the others. Values are integers;
   Nan is not a number and MInf is minus infinity.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, st, ran
metaVars == <<cfg, st, ran>>
Nan == 99
MInf == -100
Good(v) == v # Nan /\ v # MInf
\* the best of a set of alternatives under a value; all of them if none is comparable
Best(S, val(_)) == LET c == {s \in S : Good(val(s))} IN IF c = {} THEN S ELSE {s \in c : \A o \in c : val(o) <= val(s)}

\* --- grid: cfg = [k |-> "grid", bins, dim, vals]; ran = set of evaluated index tuples
Grid == [1..cfg.dim -> 0..cfg.bins]
RECURSIVE Rank(_)
Rank(p) == IF p = <<>> THEN 0 ELSE p[1] + (cfg.bins + 1) * Rank(Tail(p))
Val(p) == cfg.vals[Rank(p) + 1]
GridEval(p) == cfg.k = "grid" /\ st = "run" /\ p \in Grid /\ ran' = ran \cup {p} /\ UNCHANGED <<cfg, st>>
GridReturn(p) == cfg.k = "grid" /\ st = "run" /\ ran = Grid /\ p \in Best(Grid, Val) /\ st' = "done" /\ UNCHANGED <<cfg, ran>>

\* --- repeat: cfg = [k |-> "repeat", n, vals, bounded]; ran = set of inner runs, run i giving result i of value vals[i]
Start(i, near, b) == cfg.k = "repeat" /\ st = "run" /\ i \notin ran /\ i \in 1..cfg.n /\ near /\ b = cfg.bounded
                     /\ ran' = ran \cup {i} /\ UNCHANGED <<cfg, st>>
RepVal(i) == cfg.vals[i]
\* 0: the given start, if no result has a value
RepeatReturn(i) == cfg.k = "repeat" /\ st = "run" /\ ran = 1..cfg.n
                   /\ (IF \E j \in ran : Good(RepVal(j)) THEN i \in Best(ran, RepVal) ELSE i \in ran \cup {0})
                   /\ st' = "done" /\ UNCHANGED <<cfg, ran>>

\* --- chain: cfg = [k |-> "chain", n, codes, bounded]; ran = number of stages run, stage i turns codes[i] into codes[i+1]
Stage(i, c, b) == cfg.k = "chain" /\ st = "run" /\ i = ran + 1 /\ i <= cfg.n /\ c = cfg.codes[i] /\ b = cfg.bounded
                  /\ ran' = i /\ UNCHANGED <<cfg, st>>
ChainReturn(c) == cfg.k = "chain" /\ st = "run" /\ ran = cfg.n /\ c = cfg.codes[cfg.n + 1] /\ st' = "done" /\ UNCHANGED <<cfg, ran>>
New(c) == cfg' = c /\ st' = "run" /\ ran' = IF c.k = "chain" THEN 0 ELSE {}
=============================================================================
