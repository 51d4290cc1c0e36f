------------------------------- MODULE RandGen -------------------------------
EXTENDS Rand, TLC, Json
CONSTANTS MaxOps
VARIABLES h, n, done
R(S) == {RandomElement(S)}
Names == 1..4
Seeds == {0, 1, 2, 7, 12345, 65536, 65543, 1048583, 2147483647}
Unseeded == {-1, -2, -65536}
Bounds(t) == CASE t = "double" -> {<<0, 1>>, <<-3, 5>>, <<100, 101>>} [] t = "int" -> {<<0, 3>>, <<-2, 2>>, <<5, 5>>, <<0, 100000>>} [] OTHER -> {<<0, 1>>, <<3, 10>>}
Init == gens = [x \in Names |-> None] /\ known = [x \in {} |-> 0] /\ fresh = 0 /\ last = [t |-> "none", c |-> "in"] /\ h = <<>> /\ n = 0 /\ done = FALSE
Live == {x \in Names : gens[x].t # "none"}
Op == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED done
      /\ \E w \in R(1..15), x \in R(Names), c \in R(1..5) : \E s \in R(IF c = 1 THEN Unseeded ELSE Seeds), m \in R(1..7), t \in R({"double", "int", "gauss", "gauss"}) :
         \E bd \in R(Bounds(t)) :
         LET g == gens[x]
             bs == IF g.t = "none" THEN <<0, 1>> ELSE RandomElement(Bounds(g.t))
         IN CASE g.t = "none" \/ w = 1 -> Make(x, t, bd[1], bd[2], s) /\ h' = Append(h, [e |-> "make", g |-> x, t |-> t, a |-> bd[1], b |-> bd[2], seed |-> s])
              [] w \in 2..3 -> Reseed(x, s) /\ h' = Append(h, [e |-> "seed", g |-> x, seed |-> s])
              [] w = 4 -> Reset(x) /\ h' = Append(h, [e |-> "reset", g |-> x])
              [] w = 5 -> \E q \in {bs} : Param(x, q[1], q[2]) /\ h' = Append(h, [e |-> "param", g |-> x, a |-> q[1], b |-> q[2]])
              [] w = 6 -> UNCHANGED randVars /\ h' = Append(h, [e |-> "vector", n |-> m, bounded |-> s >= 0])
              [] w = 7 -> UNCHANGED randVars /\ h' = Append(h, [e |-> "lhs", d |-> RandomElement(1..4), n |-> RandomElement({1, 2, 3, 5, 8, 13, 14, 30, 60})])
              [] w = 8 -> UNCHANGED randVars /\ h' = Append(h, [e |-> "cover", a |-> m - 4, seed |-> s])
              [] w = 10 -> UNCHANGED randVars /\ \E q \in R(Bounds("double")) : h' = Append(h, [e |-> "stats", t |-> RandomElement({"double", "gauss", "bounded", "unbounded"}), a |-> q[1], b |-> q[2], seed |-> s])
              [] w = 9 -> gens' = gens /\ UNCHANGED <<known, fresh, last>> /\ h' = Append(h, [e |-> "vec", g |-> x, n |-> m])
              [] OTHER -> gens' = gens /\ UNCHANGED <<known, fresh, last>> /\ h' = Append(h, [e |-> "draw", g |-> x, n |-> m])
Finish == n = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<randVars, h, n>>
Spec == Init /\ [][Op \/ Finish]_<<randVars, h, n, done>>
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
