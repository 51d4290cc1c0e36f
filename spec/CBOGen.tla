------------------------------- MODULE CBOGen --------------------------------
EXTENDS CBO, TLC, Json
CONSTANTS MaxCalls, MaxLen, Faults
VARIABLES h, nx, calls, done
R(S) == {RandomElement(S)}
Init == CInit([dout |-> 0, ncon |-> 0, ninit |-> 0, iters |-> 0, hp |-> 0]) /\ h = <<>> /\ nx = 1 /\ calls = 0 /\ done = FALSE
Config == /\ h = <<>>
          /\ \E d \in R(1..3), n \in R({0, 1, 1, 2}), k \in R(0..3), i \in R(0..4), p \in R({-1, 0, 1, 2, 3}) :
               cfg' = [dout |-> d, ncon |-> n, ninit |-> k, iters |-> i, hp |-> p]
          /\ h' = <<[e |-> "new", cfg |-> cfg']>> /\ UNCHANGED <<pc, hist, mod, con, it, tot, left, pend, nx, calls, done>>
Y == [k \in 1..(cfg.dout + cfg.ncon) |-> IF k <= cfg.dout THEN RandomElement(-2..3) ELSE RandomElement(0..1)]
Eval == /\ \E f \in R(1..10), y \in {Y} : LET ok == ~Faults \/ f > 2 IN
             (EvalInit(nx, ok, y) \/ EvalLoop(nx, ok, y)) /\ h' = Append(h, [e |-> "eval", ok |-> ok, y |-> y])
        /\ nx' = nx + 1 /\ UNCHANGED <<calls, done>>
Call == /\ calls < MaxCalls /\ Len(hist) < MaxLen
        /\ \E r \in R(BOOLEAN) : Start(r) /\ h' = Append(h, [e |-> "start", reset |-> r])
        /\ calls' = calls + 1 /\ UNCHANGED <<nx, done>>
Quiet == (Propose \/ Stat \/ Tune("m") \/ (pend = {"c"} /\ Tune("c")) \/ End) /\ UNCHANGED <<h, nx, calls, done>>
Finish == pc = "idle" /\ calls > 0 /\ (calls = MaxCalls \/ Len(hist) >= MaxLen) /\ ~done /\ done' = TRUE /\ UNCHANGED <<cboVars, h, nx, calls>>
Next == Config \/ (h # <<>> /\ ~done /\ (Eval \/ Call \/ Quiet \/ Finish))
Spec == Init /\ [][Next]_<<cboVars, h, nx, calls, done>>
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
