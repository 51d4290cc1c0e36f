-------------------------------- MODULE BOMC --------------------------------
(* Exhaustive design check of BO with small constants. *)
EXTENDS BO
CONSTANTS MaxLen, MaxCalls, Iters, Hps, NInits
VARIABLE calls
Ys == {<<0, 1>>, <<1, 0>>}
Cfgs == {[iters |-> it, hp |-> hp, ninit |-> n, crit |-> cr, goal |-> 1, total |-> 3, rn |-> 1, rd |-> 1, pred |-> <<0, 1>>] :
            it \in Iters, hp \in Hps, n \in NInits,
            cr \in {<<"iters">>, <<"iters", "goal">>, <<"pred", "total", "iters">>, <<"total", "goal", "pred">>}}
Init == (\E c \in Cfgs : BOInit(c)) /\ calls = 0
Bound == Len(data) < MaxLen
Next ==
  \/ /\ calls < MaxCalls /\ calls' = calls + 1
     /\ \E r \in BOOLEAN, a \in {"first", "neg"} : Start(r, a)
  \/ /\ calls' = calls
     /\ \/ \E ok \in BOOLEAN, y \in Ys : Bound /\ (EvalInit(1, ok, y) \/ EvalLoop(1, ok, y))
        \/ \E ok \in BOOLEAN, y \in Ys : Bound /\ calls > 0 /\ UserAdd(2, ok, y)
        \/ \E it \in Iters, hp \in Hps : calls > 0 /\ SetParams(it, hp)
        \/ Propose \/ Stats \/ Tune \/ Return \/ Raise
Spec == Init /\ [][Next]_<<boVars, calls>>
\* a SetParams in idle changes the schedule used by TuneSchedule; it is checked inside calls only
=============================================================================
