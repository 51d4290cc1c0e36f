------------------------------- MODULE MultiGPMC ------------------------------
(* Design: the sub-models as the code has them. Each sub-model keeps the observations centred with a mean (its version and
   the data it was averaged on) and the decomposition computed for a number of points and a parameter version; the
   abstract flags must tell exactly when one of them is out of date.                                              *)
EXTENDS MultiGP
CONSTANTS MaxPts, Ks, Mss
VARIABLES cen,  \* per slot and output: [mv, n] the centring (mean version, number of points averaged)
          dec   \* per slot and output: [kv, n] the decomposition
v == <<mgVars, cen, dec>>
D == <<1, 2>>
Init == MInit /\ cen = [s \in Slots |-> <<>>] /\ dec = [s \in Slots |-> <<>>]
Outs(s) == DOMAIN ms'[s].kv
N(s) == Len(ms'[s].xs)
Centre(s) == cen' = [cen EXCEPT ![s] = [i \in Outs(s) |-> [mv |-> ms'[s].mv, n |-> N(s)]]]
Decomp(s) == dec' = [dec EXCEPT ![s] = [i \in Outs(s) |-> [kv |-> ms'[s].kv[i], n |-> N(s)]]]
MBatch == \E s \in 1..2, n \in 1..MaxPts : Compute(s, D, [i \in 1..n |-> i], [i \in 1..n |-> i], TRUE) /\ Centre(s) /\ Decomp(s)
MAdd == \E s \in 1..2 : Len(ms[s].xs) < MaxPts /\ Add(s, D, Len(ms[s].xs) + 1, Len(ms[s].xs) + 1)
          \* the decomposition grows by one row, every observation is centred again
          /\ Centre(s) /\ dec' = [dec EXCEPT ![s] = [i \in Outs(s) |-> [kv |-> IF dec[s] = <<>> THEN ms'[s].kv[i] ELSE dec[s][i].kv, n |-> N(s)]]]
MSetK == \E s \in 1..2, i \in 1..2, k \in Ks : ms[s].d = D /\ SetK(s, i, k) /\ UNCHANGED <<cen, dec>>
MSetM == \E s \in 1..2, k \in Mss : ms[s].d = D /\ SetM(s, k) /\ UNCHANGED <<cen, dec>>
MRec == \E s \in 1..2, om, fk \in BOOLEAN : Recompute(s, om, fk) /\ (IF om THEN Centre(s) ELSE UNCHANGED cen) /\ (IF fk THEN Decomp(s) ELSE UNCHANGED dec)
MCopy == Copy(1, 2) /\ cen' = [cen EXCEPT ![2] = cen[1]] /\ dec' = [dec EXCEPT ![2] = dec[1]]
Next == MBatch \/ MAdd \/ MSetK \/ MSetM \/ MRec \/ MCopy
Spec == Init /\ [][Next]_v
\* exact: every sub-model is centred on the current mean and decomposed with the current parameters
RealExact(s) == \A i \in DOMAIN ms[s].kv : /\ cen[s] # <<>> /\ dec[s] # <<>>
                                           /\ cen[s][i] = [mv |-> ms[s].mv, n |-> Len(ms[s].xs)]
                                           /\ dec[s][i] = [kv |-> ms[s].kv[i], n |-> Len(ms[s].xs)]
ExactIsExact == \A s \in 1..2 : (ms[s].xs # <<>> /\ Exact(ms[s])) => RealExact(s)
\* after a full recomputation everything is exact
Paired == \A s \in Slots : Len(ms[s].xs) = Len(ms[s].ys)
=============================================================================
