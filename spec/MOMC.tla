--------------------------------- MODULE MOMC --------------------------------
EXTENDS MO
CONSTANTS K, N
Init == dim \in 2..3 /\ pts = <<>>
Next == Len(pts) < (IF dim = 2 THEN N ELSE N - 1) /\ \E v \in [1..dim -> 0..(IF dim = 2 THEN K ELSE 2)] : Add(v)
Spec == Init /\ [][Next]_moVars
=============================================================================
