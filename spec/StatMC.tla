------------------------------- MODULE StatMC -------------------------------
(* Exhaustive design check of Stat with small constants. *)
EXTENDS Stat
CONSTANTS MaxLen, MaxCalls
VARIABLE calls
Ys == {<<0, 1>>, <<1, 0>>}
Cfgs == {[iters |-> it, hp |-> hp, ninit |-> n, crit |-> <<"iters">>, goal |-> 1, total |-> 3, rn |-> 1, rd |-> 1, pred |-> <<0, 1>>,
          dout |-> 2, din |-> 1, bins |-> 1, on |-> on, kind |-> "fwd"] : it \in {1, 2}, hp \in {0, 1}, n \in {0, 1}, on \in BOOLEAN}
Init == (\E c \in Cfgs : BOInit(c)) /\ StatInit /\ calls = 0
Bound == Len(data) < MaxLen
Next ==
  \/ calls < MaxCalls /\ calls' = calls + 1 /\ \E r \in BOOLEAN, a \in {"first", "neg"} : StatStart(r, a)
  \/ /\ calls' = calls
     /\ \/ \E ok \in BOOLEAN, y \in Ys : Bound /\ StatKeep(EvalInit(Len(data) + 1, ok, y) \/ EvalLoop(Len(data) + 1, ok, y))
        \/ \E ok \in BOOLEAN, y \in Ys : Bound /\ calls > 0 /\ StatAdd(Len(data) + 1, ok, y)
        \/ StatKeep(Propose) \/ StatStats \/ StatTune \/ StatKeep(Return) \/ StatKeep(Raise)
Spec == Init /\ [][Next]_<<boVars, statVars, calls>>
=============================================================================
