------------------------------- MODULE BOGen --------------------------------
(* Behaviours of BO as scripts for the driver. Mode restricts the behaviours:
   "single": one call, no failure; "multi": several calls, manual additions; "fault": failures everywhere. *)
EXTENDS BO, TLC, Json
CONSTANTS Mode, MaxCalls, MaxLen
VARIABLES h, nx, calls, done
Dout == {1, 2, 3}
Vals == -2..3
Crits == {<<"iters">>, <<"iters", "goal", "total", "pred">>, <<"pred", "total", "goal", "iters">>, <<"goal", "total">>}
Ps(n) == [1..n -> Vals]
R(S) == {RandomElement(S)}   \* one random element, so that the simulator does not enumerate all values at each step
NoCfg == [iters |-> -1]
Config == /\ h = <<>>
          /\ \E d \in R(Dout), it \in R(0..4), hp \in R({-1, 0, 1, 2, 3}), n \in R(0..3), cr \in R(Crits), pr \in R({0, 1, 2}),
                g \in R({1, 3, 50}), t \in R({2, 5, 50}), rn \in R({1, 2, 100}), y \in R(Vals) :
               cfg' = [iters |-> it, hp |-> hp, ninit |-> n, crit |-> cr, goal |-> g, total |-> t,
                       rn |-> rn, rd |-> 2, pred |-> [k \in 1..d |-> IF k = 1 THEN y ELSE pr], dout |-> d]
          /\ h' = <<[e |-> "new", cfg |-> cfg']>>
          /\ UNCHANGED <<pc, data, cur, tot, model, left, afun, tunes, reset, nx, calls, done>>
Log(e) == h' = Append(h, e)
Init == BOInit(NoCfg) /\ h = <<>> /\ nx = 1 /\ calls = 0 /\ done = FALSE
Oks == IF Mode = "fault" THEN {<<TRUE, "">>, <<TRUE, " ">>, <<FALSE, "throw">>, <<FALSE, "nan">>, <<FALSE, "inf">>, <<FALSE, "ninf">>} ELSE {<<TRUE, "">>}
Ys == Ps(cfg.dout)
Afuns == {"first", "sum", "neg", "last"}
Eval == \E o \in Oks, y \in R(Ys), at \in R(1..cfg.dout) :
           /\ (EvalInit(nx, o[1], y) \/ EvalLoop(nx, o[1], y))
           /\ Log([e |-> "eval", ok |-> o[1], why |-> o[2], y |-> y, at |-> at]) /\ nx' = nx + 1 /\ UNCHANGED <<calls, done>>
Call == /\ calls < MaxCalls /\ Len(data) < MaxLen
        /\ \E r \in (IF Mode = "single" THEN {TRUE} ELSE {TRUE, FALSE}), a \in Afuns :
             /\ Start(r, a) /\ Log([e |-> "start", reset |-> r, afun |-> a])
        /\ calls' = calls + 1 /\ UNCHANGED <<nx, done>>
Add == /\ Mode # "single" /\ Len(data) < MaxLen /\ calls < MaxCalls
       /\ \E o \in Oks, y \in R(Ys), at \in R(1..cfg.dout) : UserAdd(nx, o[1], y) /\ Log([e |-> "add", ok |-> o[1], why |-> IF o[2] = "throw" THEN "nan" ELSE o[2], y |-> y, at |-> at])
       /\ nx' = nx + 1 /\ UNCHANGED <<calls, done>>
Set == /\ Mode # "single" /\ calls < MaxCalls /\ calls > 0
       /\ \E it \in R(0..4), hp \in R({-1, 0, 1, 2, 3}) : SetParams(it, hp) /\ Log([e |-> "set", iters |-> it, hp |-> hp])
       /\ UNCHANGED <<nx, calls, done>>
Quiet == (Propose \/ Stats \/ Tune \/ Return \/ Raise) /\ UNCHANGED <<h, nx, calls, done>>
Finish == /\ pc = "idle" /\ calls > 0 /\ (calls = MaxCalls \/ Len(data) >= MaxLen) /\ ~done
          /\ done' = TRUE /\ UNCHANGED <<boVars, h, nx, calls>>
Next == Config \/ (h # <<>> /\ ~done /\ (Eval \/ Call \/ Add \/ Set \/ Quiet \/ Finish))
Spec == Init /\ [][Next]_<<boVars, h, nx, calls, done>>
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
