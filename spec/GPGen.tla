-------------------------------- MODULE GPGen --------------------------------
(* Behaviours of GP as scripts. Mode selects the operations:
   "pred" updates and queries; "lik" derived quantities; "arch" archives; "hp" tuning. *)
EXTENDS GP, TLC, Json
CONSTANTS Mode, MaxOps, MaxData, Variants
VARIABLES h, nx, vr, done
gvars == <<gpVars, h, nx, vr, done>>
R(S) == {RandomElement(S)}
HasM == {0, 3, 5}
Tk(v) == v \in {0, 1, 4, 5}
Tm(v) == v \in {0, 3, 5}
Init == GPInit /\ h = <<>> /\ nx = 1 /\ vr = -1 /\ done = FALSE
Log(e) == h' = Append(h, e) /\ UNCHANGED <<vr, done>>
Config == /\ h = <<>> /\ \E v \in R(Variants) : vr' = v /\ h' = <<[e |-> "new", variant |-> v]>>
          /\ UNCHANGED <<gpVars, nx, done>>
Same == UNCHANGED nx
\* data for a batch: new samples, the old ones in another order, a prefix, or new observations for old samples
DataFor(s, k) ==
  LET old == gp[s].data n == Len(old)
      fresh == [i \in 1..k |-> <<nx + i - 1, nx + i - 1>>]
  IN IF n = 0 THEN {fresh}
     ELSE {fresh, [i \in 1..n |-> old[n + 1 - i]], SubSeq(old, 1, (n + 1) \div 2), [i \in 1..n |-> <<old[i][1], nx + i - 1>>],
           IF n + k <= MaxData THEN old \o fresh ELSE fresh}
DimsFor(s) == IF Known(gp[s]) THEN {gp[s].dims} ELSE {1, 2, 3} \X {1, 2}
DoConstruct(s) == \E d \in R({1, 2, 3} \X {1, 2}) : Construct(s, d) /\ Log([e |-> "construct", s |-> s, din |-> d[1], dout |-> d[2]]) /\ Same
GCompute(s) == \E k \in R(1..4), dk \in R({1, 1, 1, 2}) :
                 \E ck \in R(IF Mode = "pred" THEN {TRUE, TRUE, FALSE} ELSE {TRUE}), d \in R(DataFor(s, k)),
                    dims \in R(IF dk = 1 \/ Mode = "arch" THEN DimsFor(s) ELSE {1, 2, 3} \X {1, 2}) :
                   /\ Len(d) <= MaxData
                   /\ Compute(s, d, dims, ck) /\ nx' = nx + Len(d)
                   /\ Log([e |-> "compute", s |-> s, ck |-> ck, din |-> dims[1], dout |-> dims[2], d |-> d])
GAdd(s) == /\ Len(gp[s].data) < MaxData
           /\ \E dims \in R(IF gp[s].data # <<>> THEN {gp[s].dims} ELSE DimsFor(s)), x \in R({0, 0, 0, 0, 1}) :
                LET p == <<IF x = 1 /\ gp[s].data # <<>> THEN gp[s].data[1][1] ELSE nx, nx>>
                IN Add(s, p, dims) /\ nx' = nx + 1 /\ Log([e |-> "add", s |-> s, x |-> p[1], y |-> p[2], din |-> dims[1], dout |-> dims[2]])
GSetK(s) == \E v \in R(1..6) : SetK(s, v) /\ Same /\ Log([e |-> "setk", s |-> s, v |-> v])
GSetM(s) == vr \in HasM /\ \E v \in R(1..6) : SetM(s, v) /\ Same /\ Log([e |-> "setm", s |-> s, v |-> v])
GRec(s, om, fk) == Recompute(s, om, fk) /\ Same /\ Log([e |-> "recompute", s |-> s, om |-> om, fk |-> fk])
GQuery(s) == Exact(gp[s]) /\ Query(s) /\ (\E p \in R(1..20) : Log([e |-> "query", s |-> s, p |-> p])) /\ Same
GDer(s) == /\ Exact(gp[s])
           /\ \E n \in R({"lik", "loo", "gk", "gm", "gloo", "inv"}) :
             /\ CASE n = "lik" -> Lik(s) [] n = "loo" -> Loo(s) [] n = "inv" -> Inv(s) [] OTHER -> Grad(s)
             /\ Log([e |-> n, s |-> s]) /\ Same
GPut(s) == \E n \in R({"putlik", "putloo"}), v \in R(1..5) : /\ IF n = "putlik" THEN PutLik(s, v) ELSE PutLoo(s, v)
                                                         /\ Log([e |-> n, s |-> s, v |-> v]) /\ Same
GGet(s) == \E n \in R({"getlik", "getloo"}) : /\ IF n = "getlik" THEN gp[s].lik # None ELSE gp[s].loo # None
                                            /\ UNCHANGED gpVars /\ Log([e |-> n, s |-> s]) /\ Same
GCopy(s, t) == s # t /\ (\E w \in R({0, 1}) : Copy(s, t) /\ Log([e |-> "copy", s |-> s, t |-> t, how |-> w])) /\ Same
Tunable(s) == (Tk(vr) \/ KernelOK(gp[s])) /\ (Tm(vr) \/ MeanOK(gp[s])) /\ Sized(gp[s])
GTune(s) == /\ Tunable(s) /\ Len(h) > 3
            /\ LET n == Len(h) IN
               IF vr = 2 THEN UNCHANGED gpVars ELSE Tune(s, Tk(vr), Tm(vr), 100 + n, 100 + n, IF vr = 1 THEN "loo" ELSE "lik")
            /\ Log([e |-> "tune", s |-> s]) /\ Same
GSave(s) == \E p \in R(Places), w \in R({0, 1}) : Exact(gp[s]) /\ Save(s, p) /\ Log([e |-> "save", s |-> s, p |-> p, how |-> w]) /\ Same
GLoad(s) == \E p \in R({q \in Places : disk[q] # None}), w \in R({0, 1}), r \in R(BOOLEAN) :
               Load(s, p, r) /\ Log([e |-> "load", s |-> s, p |-> p, rec |-> r, how |-> w]) /\ Same
Finish == Len(h) >= MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<gpVars, h, nx, vr>>
Op == \E s \in Slots :
        \/ (gp[s].data = <<>> /\ DoConstruct(s)) \/ GCompute(s) \/ GAdd(s)
        \/ GSetK(s) \/ GSetM(s) \/ GRec(s, TRUE, TRUE) \/ GRec(s, TRUE, FALSE) \/ GRec(s, FALSE, TRUE)
        \/ GQuery(s)
        \/ (Mode = "pred" /\ GRec(s, FALSE, FALSE))
        \/ (Mode \in {"pred", "lik"} /\ \E t \in Slots : GCopy(s, t))
        \/ (Mode = "lik" /\ (GDer(s) \/ GPut(s) \/ GGet(s)))
        \/ (Mode = "lik" /\ (GDer(s) \/ GDer(s)))
        \/ (Mode = "arch" /\ GSave(s)) \/ (Mode = "arch" /\ (\E p \in Places : disk[p] # None) /\ GLoad(s)) \/ (Mode = "arch" /\ GDer(s))
        \/ (Mode = "hp" /\ GTune(s)) \/ (Mode = "hp" /\ (GDer(s) \/ GGet(s)))
Next == Config \/ (h # <<>> /\ ~done /\ nx < 45 /\ Len(h) < MaxOps /\ Op) \/ Finish
Spec == Init /\ [][Next]_gvars
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
