-------------------------------- MODULE KernGen -------------------------------
EXTENDS Kern, TLC, Json
CONSTANTS MaxOps
VARIABLES h, done
gv == <<kVars, h, done>>
R(S) == {RandomElement(S)}
Log(e) == h' = Append(h, e) /\ UNCHANGED done
Init == KInit /\ h = <<[e |-> "new"]>> /\ done = FALSE
Some(P(_)) == {i \in DOMAIN objs : P(objs[i])}
GMake == \E k \in R(1..3), f \in R(KernFams), g \in R(MeanFams), d \in R(1..4), m \in R(1..3), n \in R(BOOLEAN) :
           LET fam == IF k < 3 THEN f ELSE g
               dim == IF k < 3 THEN d ELSE m
               no == (k < 3) /\ n
           IN Make(fam, dim, no) /\ Log([e |-> "make", fam |-> fam, dim |-> dim, noise |-> no])
Tun(o) == Size(o) > 0
GSet == Some(Tun) # {} /\ \E i \in R(Some(Tun)), w \in R(1..11) : SetP(i, w) /\ Log([e |-> "set", o |-> i, v |-> w])
GCopy == \E i \in R(DOMAIN objs) : Copy(i) /\ Log([e |-> "copy", o |-> i])
Pairs == {p \in (DOMAIN objs) \X (DOMAIN objs) : p[1] # p[2] /\ objs[p[1]].fam = objs[p[2]].fam /\ objs[p[1]].noise = objs[p[2]].noise}
GAssign == Pairs # {} /\ \E p \in R(Pairs) : Assign(p[1], p[2]) /\ Log([e |-> "assign", o |-> p[1], p |-> p[2]])
GData == \E d \in R(1..4) : NewData(d) /\ Log([e |-> "data", d |-> d])
\* indices as in a model (the same point has the same index), or not given
Idx == {<<0, 0>>, <<1, 0>>, <<0, 2>>, <<3, 3>>, <<-1, -2>>}
Observe1 == \E i \in R(DOMAIN objs), what \in R({"hp", "val", "val", "grad"}), x \in R(1..8), y \in R(1..8), ij \in R(Idx) :
             /\ Observe
             /\ Log([e |-> what, o |-> i, x |-> x, y |-> y, i |-> ij[1], j |-> ij[2]])
Finish == Len(h) >= MaxOps /\ done' = TRUE /\ UNCHANGED <<kVars, h>>
Op == Len(h) < MaxOps /\ (IF objs = <<>> THEN GMake ELSE \E c \in R(1..20) :
        CASE c <= 11 -> Observe1 [] c \in 12..15 -> (IF ENABLED GSet THEN GSet ELSE Observe1) [] c = 16 -> GCopy
          [] c = 17 -> (IF Pairs # {} THEN GAssign ELSE GData) [] c = 18 -> GData [] OTHER -> IF Len(objs) < 6 THEN GMake ELSE Observe1)
Next == ~done /\ (Op \/ Finish)
Spec == Init /\ [][Next]_gv
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
