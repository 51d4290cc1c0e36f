----------------------------- MODULE ParegoGen -------------------------------
EXTENDS Parego, TLC, Json
CONSTANTS MaxCalls, MaxLen, Mode
VARIABLES h, nx, calls, done
R(S) == {RandomElement(S)}
genVars == <<paVars, h, nx, calls, done>>
Init == PInit([d |-> 1, rho |-> 0, ninit |-> 0, iters |-> 0, hp |-> 0]) /\ h = <<>> /\ nx = 1 /\ calls = 0 /\ done = FALSE
Vec(d, i) == IF i <= d THEN [k \in 1..d |-> IF k = i THEN 1 ELSE 0] ELSE [k \in 1..d |-> RandomElement(-9..9)]
Config == /\ h = <<>>
          /\ \E d \in R(1..4), r \in R({0, 50, 50, 500}), k \in R(0..4), i \in R(0..4), p \in R({0, 0, 1, 2}) :
               cfg' = [d |-> d, rho |-> r, ninit |-> k, iters |-> i, hp |-> p]
          /\ h' = <<[e |-> "new", mode |-> Mode, cfg |-> cfg']>> /\ UNCHANGED <<pc, hist, mod, w, fresh, it, tot, left, nx, calls, done>>
\* --- mode "model"
DoCompute == \E d \in R(1..4), n \in R(0..3) :
               LET q == [i \in 1..(d + n) |-> <<nx + i, Vec(d, i)>>] IN
                 /\ Compute(d, q) /\ h' = Append(h, [e |-> "compute", d |-> d, xs |-> Xs(q), ys |-> Ys(q)])
                 /\ nx' = nx + Len(q) /\ calls' = calls + 1 /\ UNCHANGED done
DoAdd == \E y \in {Vec(cfg.d, Len(mod) + 1)} :
            /\ Add(nx, y) /\ h' = Append(h, [e |-> "add", x |-> nx, y |-> y])
            /\ nx' = nx + 1 /\ calls' = calls + 1 /\ UNCHANGED done
DoKeep == \E o \in R({"copy", "recompute", "tune"}) :
            /\ mod # <<>> /\ Keep /\ h' = Append(h, [e |-> o]) /\ calls' = calls + 1 /\ UNCHANGED <<nx, done>>
ModelNext == Mode = "model" /\ calls < MaxCalls /\ Len(mod) < MaxLen /\ (DoCompute \/ DoAdd \/ DoAdd \/ DoAdd \/ DoKeep)
\* --- mode "run"
Eval == /\ Mode = "run"
        /\ \E f \in R(1..12), y \in {Vec(cfg.d, Len(hist) + 1)} : LET ok == f > 1 IN
             (EvalInit(nx, ok, y) \/ EvalLoop(nx, ok, y)) /\ h' = Append(h, [e |-> "eval", ok |-> ok, y |-> y])
        /\ nx' = nx + 1 /\ UNCHANGED <<calls, done>>
Call == /\ Mode = "run" /\ calls < MaxCalls /\ Len(hist) < MaxLen
        /\ \E r \in R(BOOLEAN) : Start(r) /\ h' = Append(h, [e |-> "start", reset |-> r])
        /\ calls' = calls + 1 /\ UNCHANGED <<nx, done>>
Quiet == (End \/ (Propose /\ UNCHANGED <<cfg, hist, mod, w, fresh, it, tot, left>>)) /\ UNCHANGED <<h, nx, calls, done>>
Finish == pc = "idle" /\ calls > 0 /\ (calls = MaxCalls \/ Len(hist) >= MaxLen \/ Len(mod) >= MaxLen) /\ ~done /\ done' = TRUE /\ UNCHANGED <<paVars, h, nx, calls>>
Next == Config \/ (h # <<>> /\ ~done /\ (ModelNext \/ Eval \/ Call \/ Quiet \/ Finish))
Spec == Init /\ [][Next]_genVars
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
