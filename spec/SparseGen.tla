------------------------------- MODULE SparseGen ------------------------------
EXTENDS Sparse, TLC, Json
CONSTANTS MaxOps, MaxBatch, Stress
VARIABLES h, done, nxt
gv == <<spVars, h, done, nxt>>
R(S) == {RandomElement(S)}
NP == 40
Init == SpInit /\ h = <<>> /\ done = FALSE /\ nxt = 1
\* spread places, clustered places, or only a few different places (duplicates, ties)
Config == /\ h = <<>> /\ ~Stress
          /\ \E m \in R(1..7), d \in R(1..3), w \in R({1, 3, 9, 9, 12}) :
               \E p \in {[i \in 1..NP |-> [j \in 1..d |-> RandomElement(0..w)]]} :
                 /\ cfg' = [max |-> m, dim |-> d, pos |-> p] /\ kept' = <<>>
                 /\ h' = <<[e |-> "new", max |-> m, dim |-> d, pos |-> p]>>
          /\ UNCHANGED <<done, nxt>>
\* many points and one removal, repeated: a regular grid with one point moved towards its neighbours
SN == 36
StressConfig ==
  /\ h = <<>> /\ Stress
  /\ \E k \in R(1..SN), dx \in R({1, 2}), dy \in R({0, 1, 2}) :
       LET p == [i \in 1..SN |-> <<(6 * ((i - 1) % 6)) + (IF i = k THEN dx ELSE 0), (6 * ((i - 1) \div 6)) + (IF i = k THEN dy ELSE 0)>>]
       IN /\ cfg' = [max |-> SN - 1, dim |-> 2, pos |-> p] /\ kept' = <<>>
          /\ h' = <<[e |-> "new", max |-> SN - 1, dim |-> 2, pos |-> p], [e |-> "repeat", s |-> [i \in 1..SN |-> i]]>>
  /\ nxt' = NP /\ UNCHANGED done
Log(e) == h' = Append(h, e) /\ UNCHANGED done
\* (the points kept are not simulated here: the trace tells)
GBatch == \E k \in R(1..MaxBatch) : nxt + k <= NP /\ nxt' = nxt + k /\ Log([e |-> "compute", s |-> [i \in 1..k |-> (nxt + i) - 1]]) /\ UNCHANGED spVars
GAdd == nxt < NP /\ nxt' = nxt + 1 /\ Log([e |-> "add", p |-> nxt]) /\ UNCHANGED spVars
GOther == \E o \in R({"recompute", "query", "copy", "reload"}) : Log([e |-> o]) /\ UNCHANGED <<spVars, nxt>>
Finish == (Len(h) >= MaxOps \/ nxt + MaxBatch > NP) /\ done' = TRUE /\ UNCHANGED <<spVars, h, nxt>>
Op == IF Len(h) = 1 THEN \E c \in R(1..2) : (IF c = 1 THEN GBatch ELSE GAdd)
      ELSE \E c \in R(1..10) : IF c <= 2 THEN GBatch ELSE IF c <= 7 THEN GAdd ELSE GOther
Next == Config \/ StressConfig \/ (h # <<>> /\ ~done /\ (IF Len(h) >= MaxOps \/ nxt + MaxBatch > NP THEN Finish ELSE Op))
Spec == Init /\ [][Next]_gv
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
