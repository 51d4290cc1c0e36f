------------------------------ MODULE MultiGPGen ------------------------------
EXTENDS MultiGP, TLC, Json
CONSTANTS MaxOps, Tuning, Saving    \* Saving: most operations are saves and loads
VARIABLES h, done, nid
gv == <<mgVars, h, done, nid>>
R(S) == {RandomElement(S)}
\* ex: predictions are determined (driver and specification compute it alike)
Log(e) == h' = Append(h, e) /\ UNCHANGED done
LogS(s, e) == Log(e @@ [s |-> s, ex |-> Exact(ms'[s])])
Init == MInit /\ h = <<[e |-> "new"]>> /\ done = FALSE /\ nid = 1
DimsSet == {<<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<3, 2>>}
GNew == \E s \in R(Slots), d \in R(DimsSet \cup {<<0, 0>>}) : New(s, d) /\ LogS(s, [e |-> "make", d |-> d]) /\ UNCHANGED nid
\* most of the batches keep the dimensions
DimOf(s, d) == IF ms[s].d = <<0, 0>> \/ RandomElement(1..3) = 1 THEN d ELSE ms[s].d
GCompute == \E s \in R(Slots), d0 \in R(DimsSet), n \in R(1..5), k \in R({TRUE, TRUE, TRUE, FALSE}) : \E d \in {DimOf(s, d0)} :
              LET xs == [i \in 1..n |-> (nid + i) - 1] IN
              /\ Compute(s, d, xs, xs, k) /\ nid' = nid + n
              /\ LogS(s, [e |-> "compute", d |-> d, xs |-> xs, k |-> k])
GAdd == \E s \in R(Slots), d0 \in R(DimsSet) : LET d == IF ms[s].d = <<0, 0>> THEN d0 ELSE ms[s].d IN
          Len(ms[s].xs) < 8 /\ Add(s, d, nid, nid) /\ nid' = nid + 1 /\ LogS(s, [e |-> "add", d |-> d, x |-> nid])
Known == {s \in Slots : ms[s].d[1] > 0}
WithData == {s \in Slots : ms[s].xs # <<>>}
GSetK == Known # {} /\ (\E s \in R(Known) : \E i \in R(1..ms[s].d[2]), v \in R(1..6) : SetK(s, i, v) /\ LogS(s, [e |-> "setk", i |-> i, v |-> v])) /\ UNCHANGED nid
GSetM == Known # {} /\ (\E s \in R(Known), v \in R(1..6) : SetM(s, v) /\ LogS(s, [e |-> "setm", v |-> v])) /\ UNCHANGED nid
GRec == WithData # {} /\ (\E s \in R(WithData), om \in R(BOOLEAN), fk \in R(BOOLEAN) :
          Recompute(s, om, fk \/ ms[s].dk) /\ LogS(s, [e |-> "recompute", om |-> om, fk |-> (fk \/ ms[s].dk)])) /\ UNCHANGED nid
Clean == {s \in WithData : Exact(ms[s]) /\ Len(ms[s].xs) >= 2}
\* (the versions found by the tuner are not known here: the trace tells; the model is then only used for what does not depend on it)
GTune == Tuning /\ Clean # {} /\ UNCHANGED <<mgVars, nid>> /\ (\E s \in R(Clean) : LogS(s, [e |-> "tune"]))
GCopy == \E s \in R(Slots), t \in R(Slots) : Copy(s, t) /\ LogS(s, [e |-> "copy", t |-> t]) /\ UNCHANGED nid
Savable == {s \in WithData : ~ms[s].pd}
GSave == Savable # {} /\ (\E s \in R(Savable), p \in R(1..2) : Save(s, p) /\ LogS(s, [e |-> "save", p |-> p])) /\ UNCHANGED nid
Saved == {p \in 1..2 : store[p].xs # <<>>}
GLoad == Saved # {} /\ (\E s \in R(Slots), p \in R(Saved), r \in R(BOOLEAN) : Load(s, p, r) /\ LogS(s, [e |-> "load", p |-> p, r |-> r])) /\ UNCHANGED nid
Q == Known # {} /\ UNCHANGED <<mgVars, nid>> /\ (\E s \in R(Known), x \in R(1..40) : LogS(s, [e |-> "query", x |-> x]))
Finish == Len(h) >= MaxOps /\ done' = TRUE /\ UNCHANGED <<mgVars, h, nid>>
Pick == \E c \in R(1..40) :
   CASE c <= 2 -> GNew [] c \in 3..7 -> GCompute [] c \in 8..15 -> GAdd [] c \in 16..17 -> GSetK [] c \in 18..20 -> GSetM
     [] c \in 21..25 -> GRec [] c \in 26..27 -> GTune [] c = 28 -> GCopy [] c \in 29..30 -> GSave [] c \in 31..32 -> GLoad [] OTHER -> Q
PickS == \E c \in R(1..20) : CASE c <= 3 -> GSave [] c \in 4..8 -> GLoad [] OTHER -> Pick
Next == ~done /\ (IF Len(h) >= MaxOps THEN Finish ELSE (IF Saving THEN PickS \/ PickS \/ PickS \/ GCompute ELSE Pick \/ Pick \/ Pick \/ GCompute))
Spec == Init /\ [][Next]_gv
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
