-------------------------------- MODULE CBOMC --------------------------------
EXTENDS CBO
CONSTANTS MaxLen, MaxCalls
VARIABLES nx, calls
Cfgs == {[dout |-> d, ncon |-> n, ninit |-> k, iters |-> 2, hp |-> h] : d \in 1..1, n \in 0..1, k \in 0..1, h \in {0, 1, 2}}
Init == (\E c \in Cfgs : CInit(c)) /\ nx = 0 /\ calls = 0
Ys == [1..(cfg.dout + cfg.ncon) -> {0, 1}]
Next == \/ calls < MaxCalls /\ Len(hist) < MaxLen /\ calls' = calls + 1 /\ UNCHANGED nx /\ \E r \in BOOLEAN : Start(r)
        \/ UNCHANGED calls /\ nx' = nx + 1 /\ \E ok \in BOOLEAN, y \in Ys : EvalInit(nx, ok, y) \/ EvalLoop(nx, ok, y)
        \/ UNCHANGED <<nx, calls>> /\ (Propose \/ Stat \/ Tune("m") \/ Tune("c") \/ End)
Spec == Init /\ [][Next]_<<cboVars, nx, calls>>
=============================================================================
