------------------------------ MODULE ParegoMC -------------------------------
(* The run loop with an abstract weight index, and two facts about the scalarisation used by the trace specification:
   a dominated vector never gets a larger number, and unit vectors show the weights. *)
EXTENDS Parego
CONSTANTS MaxLen, MaxCalls
VARIABLES nx, calls
Init == (\E k \in 0..2, h \in {0} : PInit([d |-> 2, rho |-> 50, ninit |-> k, iters |-> 2, hp |-> h])) /\ nx = 0 /\ calls = 0
Yv == {<<0, 1>>, <<2, -1>>}
Next == \/ calls < MaxCalls /\ Len(hist) < MaxLen /\ calls' = calls + 1 /\ UNCHANGED nx /\ \E r \in BOOLEAN : Start(r)
        \/ UNCHANGED calls /\ nx' = nx + 1 /\ \E ok \in BOOLEAN, y \in Yv : EvalInit(nx, ok, y) \/ EvalLoop(nx, ok, y)
        \/ UNCHANGED <<nx, calls>> /\ (End \/ (Propose /\ UNCHANGED <<cfg, hist, mod, w, fresh, it, tot, left>>)
              \/ (pc \in {"loop"} /\ Look(Xs(mod), [i \in DOMAIN mod |-> 0], IF fresh THEN w \o "i" ELSE w)))
Spec == Init /\ [][Next]_<<paVars, nx, calls>>
Lam == {a \in [1..3 -> 0..6] : a[1] + a[2] + a[3] = 6}
Vec == [1..3 -> -2..2]
Unit(j) == [k \in 1..3 |-> IF k = j THEN 1 ELSE 0]
ASSUME \A a \in Lam, y \in Vec, r \in {0, 50, 500} : \A j \in 1..3 :
         AugMax(a, y, r) <= AugMax(a, [y EXCEPT ![j] = @ + 1], r)
ASSUME \A a \in Lam, r \in {50, 500}, j \in 1..3 : AugMax(a, Unit(j), r) = (1000 + r) * a[j]
=============================================================================
