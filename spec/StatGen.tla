------------------------------ MODULE StatGen -------------------------------
(* Behaviours of Stat as scripts for the driver. *)
EXTENDS Stat, TLC, Json
CONSTANTS MaxCalls, MaxLen
VARIABLES h, nx, calls, done
Vals == -2..3
R(S) == {RandomElement(S)}
gvars == <<boVars, statVars, h, nx, calls, done>>
Config == /\ h = <<>>
          /\ \E k \in R({"fwd", "rev", "multi", "gp", "gp"}), din \in R(1..3), d \in R(1..3), it \in R(0..4), hp \in R({-1, 0, 1, 2, 3}),
                n \in R(0..3), b \in R(1..4), on \in R({TRUE, TRUE, TRUE, TRUE, FALSE}) :
               cfg' = [iters |-> it, hp |-> hp, ninit |-> n, crit |-> <<"iters">>, goal |-> 1, total |-> 1, rn |-> 1, rd |-> 1, pred |-> <<0>>,
                       kind |-> k, din |-> din, dout |-> IF k = "multi" /\ d = 1 THEN 2 ELSE d,
                       bins |-> IF din = 3 THEN (b % 2) + 1 ELSE b, on |-> on]
          /\ h' = <<[e |-> "new", cfg |-> cfg']>>
          /\ UNCHANGED <<pc, data, cur, tot, model, left, afun, tunes, reset, nx, calls, done, statVars>>
Log(e) == h' = Append(h, e)
Init == BOInit([iters |-> -1]) /\ StatInit /\ h = <<>> /\ nx = 1 /\ calls = 0 /\ done = FALSE
\* (an argument: TLC evaluates a constant definition once)
Oks(n) == IF RandomElement(1..6) = 1 THEN {<<TRUE, "">>, <<FALSE, "throw">>, <<FALSE, "nan">>} ELSE {<<TRUE, "">>}
Ps(n) == [1..n -> Vals]
Eval == \E o \in R(Oks(nx)), y \in R(Ps(cfg.dout)), at \in R(1..cfg.dout) :
           /\ StatKeep(EvalInit(nx, o[1], y) \/ EvalLoop(nx, o[1], y))
           /\ Log([e |-> "eval", ok |-> o[1], why |-> o[2], y |-> y, at |-> at]) /\ nx' = nx + 1 /\ UNCHANGED <<calls, done>>
Call == /\ calls < MaxCalls /\ Len(data) < MaxLen
        /\ \E r \in R({TRUE, FALSE, FALSE}), a \in R(Aggs) : StatStart(r, a) /\ Log([e |-> "start", reset |-> r, afun |-> a])
        /\ calls' = calls + 1 /\ UNCHANGED <<nx, done>>
Add == /\ Len(data) < MaxLen /\ calls < MaxCalls
       /\ \E o \in R(Oks(nx)), y \in R(Ps(cfg.dout)), at \in R(1..cfg.dout) :
            StatAdd(nx, o[1], y) /\ Log([e |-> "add", ok |-> o[1], why |-> IF o[1] THEN "" ELSE "nan", y |-> y, at |-> at])
       /\ nx' = nx + 1 /\ UNCHANGED <<calls, done>>
Set == /\ calls < MaxCalls /\ calls > 0
       /\ \E it \in R(0..4), hp \in R({-1, 0, 1, 2, 3}) : StatKeep(SetParams(it, hp)) /\ Log([e |-> "set", iters |-> it, hp |-> hp])
       /\ UNCHANGED <<nx, calls, done>>
Quiet == (StatKeep(Propose) \/ StatStats \/ StatTune \/ StatKeep(Return) \/ StatKeep(Raise)) /\ UNCHANGED <<h, nx, calls, done>>
Finish == /\ pc = "idle" /\ calls > 0 /\ (calls = MaxCalls \/ Len(data) >= MaxLen) /\ ~done
          /\ done' = TRUE /\ UNCHANGED <<boVars, statVars, h, nx, calls>>
Next == Config \/ (h # <<>> /\ ~done /\ (Eval \/ Call \/ Call \/ Add \/ Set \/ Quiet \/ Finish))
Spec == Init /\ [][Next]_gvars
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
