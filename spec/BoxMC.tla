-------------------------------- MODULE BoxMC --------------------------------
EXTENDS Box
Points == UNION {[1..d -> {"in", "low", "high"}] : d \in 1..2}
Init == kind \in {"grid", "engine"} /\ call = NoCall /\ engine = [dim |-> 0, bounded |-> FALSE] /\ pt = <<"in">> /\ ncalls = 0
Next == \/ ncalls < 3 /\ \E b \in BOOLEAN, s \in Points : Call(b, Len(s), s)
        \/ \E p \in Points : Eval(p) \/ Return(p)
Spec == Init /\ [][Next]_boxVars
ReturnInBox == [][(call.on /\ call.bounded /\ ~call'.on) => In(pt')]_boxVars
=============================================================================
