-------------------------------- MODULE Tree --------------------------------
(* Tree-based optimisation (experimental/bayes_opt/imgpo.hpp): cells of the unit box, cut in three along a longest side. A coordinate of a
   centre is <<m, k>>: the middle of the k-th of the 3^m equal parts of [0,1], with m as small as possible. Which cell is cut next depends
   on a model and is left free; what may be evaluated is not.                                                                             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES dim, iters, phase, seen, now, hist, cur, tot
treeVars == <<dim, iters, phase, seen, now, hist, cur, tot>>
\* seen: points evaluated since the last reset, hist: all of them in order; now: points of this call; a cell may only be cut when its
\* centre is in seen
RECURSIVE Norm(_, _)
Norm(m, k) == IF m > 0 /\ k % 3 = 1 THEN Norm(m - 1, k \div 3) ELSE <<m, k>>
RECURSIVE Pow3(_)
Pow3(n) == IF n = 0 THEN 1 ELSE 3 * Pow3(n - 1)
Range(s) == {s[i] : i \in DOMAIN s}
Root(d) == [j \in 1..d |-> <<0, 0>>]
IsPoint(p) == Len(p) = dim /\ \A j \in 1..dim : p[j][1] >= 0 /\ p[j][2] \in 0..(Pow3(p[j][1]) - 1) /\ Norm(p[j][1], p[j][2]) = p[j]
MaxL(p) == CHOOSE m \in {p[j][1] : j \in DOMAIN p} : \A j \in DOMAIN p : p[j][1] <= m
\* centres of the cells that have the cell of p as a side child: the smallest cell around p has sides of level L and L-1 only
Parents(p) == LET L == MaxL(p) IN {[p EXCEPT ![j] = Norm(L - 1, p[j][2] \div 3)] : j \in {q \in DOMAIN p : p[q][1] = L}}
\* the centre of the box is the first point of a run; any other point needs an evaluated parent
Fresh(p) == p \notin seen /\ IF p = Root(dim) THEN seen = {} ELSE Parents(p) \cap seen # {}
New(d) == dim' = d /\ iters' = 0 /\ phase' = "idle" /\ seen' = {} /\ now' = {} /\ hist' = <<>> /\ cur' = 0 /\ tot' = 0
Start(r, it) == /\ phase = "idle"
                /\ LET z == r \/ tot = 0 IN
                     /\ seen' = IF z THEN {} ELSE seen
                     /\ hist' = IF r THEN <<>> ELSE hist
                     /\ tot' = IF r THEN 0 ELSE tot
                     /\ phase' = IF z THEN "root" ELSE "run"
                /\ now' = {} /\ cur' = 0 /\ iters' = it /\ UNCHANGED dim
Eval(p) == /\ phase \in {"root", "run"} /\ IsPoint(p) /\ Fresh(p)
           /\ phase' = "stats" /\ seen' = seen \cup {p} /\ now' = now \cup {p} /\ hist' = Append(hist, p) /\ UNCHANGED <<dim, iters, cur, tot>>
Stats == phase = "stats" /\ phase' = "run" /\ cur' = cur + 1 /\ tot' = tot + 1 /\ UNCHANGED <<dim, iters, seen, now, hist>>
Return == phase = "run" /\ cur >= iters /\ phase' = "idle" /\ UNCHANGED <<dim, iters, seen, now, hist, cur, tot>>
------------------------------------------------------------------------------
(* The partition behind it, for the design check: cells are boxes <<m, k>> per dimension, not normalised. *)
Centre(c) == [j \in DOMAIN c |-> Norm(c[j][1], c[j][2])]
Longest(c) == {j \in DOMAIN c : \A q \in DOMAIN c : c[j][1] <= c[q][1]}
Cut(c, j) == {[c EXCEPT ![j] = <<c[j][1] + 1, 3 * c[j][2] + e>>] : e \in 0..2}
=============================================================================
