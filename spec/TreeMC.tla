------------------------------- MODULE TreeMC -------------------------------
(* Design check: an algorithm that really keeps the cells (leaves), cuts evaluated leaves along a longest side and evaluates centres of
   leaves, refines Tree: every evaluation it makes is one that Tree allows. Leaves always partition the box.                            *)
EXTENDS Tree
CONSTANTS MaxCut, D, Iters
VARIABLE leaves
U == UNCHANGED leaves
Init == dim = D /\ iters = 0 /\ phase = "idle" /\ seen = {} /\ now = {} /\ hist = <<>> /\ cur = 0 /\ tot = 0 /\ leaves = {}
RootCell == [j \in 1..D |-> <<0, 0>>]
MStart == \E r \in BOOLEAN : tot < 4 /\ Start(r, Iters) /\ leaves' = (IF phase' = "root" THEN {RootCell} ELSE leaves)
\* what the algorithm evaluates; not guarded by Fresh
MEval == \E c \in leaves : /\ phase \in {"root", "run"} /\ Centre(c) \notin seen
                           /\ seen' = seen \cup {Centre(c)} /\ now' = now \cup {Centre(c)} /\ hist' = Append(hist, Centre(c)) /\ phase' = "stats"
                           /\ UNCHANGED <<dim, iters, cur, tot>> /\ U
MCut == \E c \in leaves : \E j \in Longest(c) :
            /\ phase = "run" /\ Centre(c) \in seen /\ Cardinality(leaves) <= 2 * MaxCut
            /\ leaves' = (leaves \ {c}) \cup Cut(c, j) /\ UNCHANGED treeVars
Next == MStart \/ (cur < Iters + 1 /\ MEval) \/ (Stats /\ U) \/ MCut \/ (Return /\ U)
Spec == Init /\ [][Next]_<<treeVars, leaves>>
Partition == leaves # {} => \A x \in [1..D -> {1, 4, 7, 10, 13, 16, 19, 22, 25}] : \* points of a finer grid, in 27ths
    Cardinality({c \in leaves : \A j \in 1..D : c[j][1] <= 3 /\ LET w == 27 \div Pow3(c[j][1]) IN x[j] \div w = c[j][2]}) <= 1
Balanced == \A c \in leaves : \A i, j \in 1..D : c[i][1] - c[j][1] <= 1
Paired == Cardinality(seen) = Len(hist)
OnlyFresh == [][seen' # seen /\ Cardinality(seen') = Cardinality(seen) + 1 /\ phase' = "stats" =>
                  \E p \in seen' \ seen : IsPoint(p) /\ Fresh(p)]_<<treeVars, leaves>>
=============================================================================
