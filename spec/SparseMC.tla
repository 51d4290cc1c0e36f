------------------------------- MODULE SparseMC -------------------------------
EXTENDS Sparse
CONSTANTS Max, Coords, NPts
VARIABLES fed, n   \* everything given since the last batch
v == <<spVars, fed, n>>
Init == fed = <<>> /\ n = 0 /\ kept = <<>> /\ \E p \in [1..NPts -> Coords] : cfg = [max |-> Max, dim |-> 1, pos |-> [i \in 1..NPts |-> <<p[i]>>]]
Batch == n = 0 /\ (\E k \in 1..NPts : LET s == [i \in 1..k |-> i] IN Compute(s) /\ fed' = s /\ n' = k)
One == n < NPts /\ Add(n + 1) /\ fed' = Append(fed, n + 1) /\ n' = n + 1
Next == Batch \/ One
Spec == Init /\ [][Next]_v
\* a subset in the original order, everything while it fits, never more than the limit
Subset == IsSub(kept, fed)
KeepsAll == Len(fed) <= Max => kept = fed
Full == Len(fed) > Max => Len(kept) = Max
\* with one dimension, when all places are different, the two closest neighbours are never both kept while another pair is removed: the
\* removed point was one of a closest pair
ClosestPair == [][(Len(kept') = Len(kept) /\ n' = n + 1 /\ kept' # kept) =>
                  LET s == Append(kept, n + 1)
                      gone == CHOOSE i \in DOMAIN s : RemoveAt(s, i) = kept'
                      m == CHOOSE d \in {Dist(s[i], s[j]) : i, j \in DOMAIN s} : d # -1
                  IN \E j \in DOMAIN s : j # gone /\ \A a, b \in DOMAIN s : a # b => Dist(s[gone], s[j]) <= Dist(s[a], s[b]) + Tol]_v
=============================================================================
