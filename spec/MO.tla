--------------------------------- MODULE MO ----------------------------------
(* Multi-objective sets (experimental/tools/pareto.hpp, src/hv, src/ehvi): an archive of objective vectors on an integer grid grows one
   point at a time; the Pareto set and the dominated volume are functions of it. Objectives are maximised, the reference is the origin. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES dim, pts      \* number of objectives; sequence of objective vectors
moVars == <<dim, pts>>
Range(s) == {s[i] : i \in DOMAIN s}
Geq(a, b) == \A j \in DOMAIN a : a[j] >= b[j]
Dom(a, b) == Geq(a, b) /\ a # b
NonDom(S) == {a \in S : ~\E b \in S : Dom(b, a)}
Front == {i \in DOMAIN pts : pts[i] \in NonDom(Range(pts))}
LexGeq(a, b) == a = b \/ \E j \in DOMAIN a : a[j] > b[j] /\ \A k \in 1..(j - 1) : a[k] = b[k]
MaxC(S) == IF S = {} THEN 0 ELSE CHOOSE m \in {s[j] : s \in S, j \in 1..dim} : \A s \in S, j \in 1..dim : s[j] <= m
\* unit cells of the box (lo, hi] dominated by S
Cells(S, hi) == {c \in [1..dim -> 1..MaxC(S)] : (\A j \in 1..dim : c[j] <= hi[j]) /\ \E s \in S : Geq(s, c)}
Hv(S) == Cardinality({c \in [1..dim -> 1..MaxC(S)] : \E s \in S : Geq(s, c)})
HvBox(S, hi) == Cardinality(Cells(S, hi))
\* increase of the volume by one more vector
Gain(S, v) == Hv(S \cup {v}) - Hv(S)

New(d) == dim' = d /\ pts' = <<>>
Add(v) == Len(v) = dim /\ pts' = Append(pts, v) /\ UNCHANGED dim
\* admissible answers; entries are numbers of points
Injective(q) == Cardinality(Range(q)) = Len(q)
ParetoOk(q) == /\ Injective(q) /\ Range(q) \subseteq Front
               /\ {pts[i] : i \in Range(q)} = NonDom(Range(pts))
               /\ \A k \in 1..(Len(q) - 1) : LexGeq(pts[q[k]], pts[q[k + 1]])
FilterOk(q) == Injective(q) /\ Range(q) \subseteq Front /\ {pts[i] : i \in Range(q)} = NonDom(Range(pts))
------------------------------------------------------------------------------
SameVolume == Hv(NonDom(Range(pts))) = Hv(Range(pts))
NoneDominated == \A a, b \in NonDom(Range(pts)) : ~Dom(a, b)
EveryoneCovered == \A a \in Range(pts) : \E b \in NonDom(Range(pts)) : Geq(b, a)
Grows == [][Len(pts') > Len(pts) => /\ Hv(Range(pts')) >= Hv(Range(pts))
                                    /\ (\E a \in Range(pts) : Geq(a, pts'[Len(pts')])) => Hv(Range(pts')) = Hv(Range(pts))]_moVars
=============================================================================
