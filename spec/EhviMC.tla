------------------------------- MODULE EhviMC --------------------------------
EXTENDS Ehvi
CONSTANTS MaxLen, MaxCalls, MaxY
VARIABLES nx, calls
Init == (\E k \in 1..2 : EInit([d |-> 2, ninit |-> k, iters |-> 2, rx |-> -1, ry |-> -1])) /\ nx = 1 /\ calls = 0
Yv == {<<a, b>> : a, b \in 0..MaxY}
Front == {p \in Range(hist) : p[2] \in NonDom({r[2] : r \in Range(hist)})}
Next == \/ calls < MaxCalls /\ Len(hist) < MaxLen /\ calls' = calls + 1 /\ UNCHANGED nx /\ \E r \in BOOLEAN : Start(r)
        \/ UNCHANGED calls /\ nx' = nx + 1 /\ \E y \in Yv : EvalInit(nx, TRUE, y)
        \/ UNCHANGED calls /\ nx' = nx + 1 /\ \E ok \in BOOLEAN, y \in {<<0, 1>>, <<MaxY, 0>>} : EvalLoop(nx, ok, y)
        \/ UNCHANGED <<nx, calls>> /\ (End \/ Stat \/ \E p \in Front : Inner(p[1], <<nx>>, <<Value(hist, nx)>>, nx))
Spec == Init /\ [][Next]_<<ehVars, nx, calls>>
\* the expected improvement is never negative, and one more vector never increases it when the models do not change (rounding aside)
ValueSane == hist # <<>> /\ pc = "loop" =>
   LET N == NonDom({p[2] : p \in Range(hist)}) IN
     \A x \in 1..3 : Strips(hist, N, x, cfg.rx) >= -10
        /\ \A y \in Yv : Strips(hist, NonDom(N \cup {y}), x, cfg.rx) <= Strips(hist, N, x, cfg.rx) + 10
=============================================================================
