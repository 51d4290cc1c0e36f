-------------------------------- MODULE MOGen --------------------------------
EXTENDS MO, TLC, Json
CONSTANTS Ks      \* size of the grid by number of objectives
VARIABLES h, n, ps, kk
R(S) == {RandomElement(S)}
Init == dim = 0 /\ pts = <<>> /\ h = <<>> /\ n = 0 /\ ps = FALSE /\ kk = 0
Config == dim = 0 /\ \E d \in R({2, 2, 3, 3, 4, 4, 5, 6}), sc \in R(0..4), m \in R(1..14), z \in R(1..3) : New(d) /\ n' = m /\ h' = <<[e |-> "new", d |-> d, sc |-> sc]>> /\ kk' = (IF z = 1 /\ d < 5 THEN 2 ELSE Ks[d]) /\ UNCHANGED ps
Cand == [j \in 1..dim |-> 2 * RandomElement(0..kk) + 1]
Grow == /\ dim > 0 /\ Len(pts) < n
        /\ \E w \in R(1..5), v \in {[j \in 1..dim |-> 2 * RandomElement(0..kk)]}, u \in {[j \in 1..dim |-> RandomElement(0..(2 * kk + 2))]}, c \in {Cand},
              near \in R(IF pts = <<>> THEN {0} ELSE DOMAIN pts), jj \in R(1..dim) :
           LET q == IF w = 1 /\ near > 0 THEN pts[near] ELSE IF w = 2 /\ near > 0 THEN [pts[near] EXCEPT ![jj] = v[jj]] ELSE v
           IN Add(q) /\ h' = Append(h, [e |-> "add", v |-> q, cand |-> c, hi |-> u])
        /\ UNCHANGED <<n, ps, kk>>
Finish == dim > 0 /\ Len(pts) = n /\ ~ps /\ ps' = TRUE /\ UNCHANGED <<moVars, h, n, kk>>
Spec == Init /\ [][Config \/ Grow \/ Finish]_<<moVars, h, n, ps, kk>>
Emit == ps => PrintT("@@" \o ToJson(h))
K == <<0, 5, 3, 1, 1, 1>>
=============================================================================
