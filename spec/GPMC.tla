-------------------------------- MODULE GPMC --------------------------------
(* Exhaustive design check of GP. *)
EXTENDS GP, TLC
CONSTANTS MaxData, Vs, MaxLevel
P(n) == <<n, n>>
Dims == {<<1, 1>>, <<2, 1>>}
Init == GPInit
Next == \E s \in Slots :
  \/ \E d \in Dims : \/ d[1] = 1 /\ Construct(s, d)
                     \/ Len(gp[s].data) < MaxData /\ Add(s, P(Len(gp[s].data) + 1), d)
                     \/ \E ck \in BOOLEAN : Compute(s, <<P(1)>>, d, ck)
  \/ \E ck \in BOOLEAN : MaxData > 1 /\ Compute(s, <<P(2), P(1)>>, <<1, 1>>, ck)
  \/ \E v \in Vs : SetK(s, v) \/ SetM(s, v)
  \/ \E a, b \in BOOLEAN : Recompute(s, a, b)
  \/ Lik(s) \/ Loo(s) \/ Grad(s) \/ Inv(s)
  \/ \E t \in Slots \ {s} : Copy(s, t)
  \/ \E v \in Vs, t \in {<<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>}, c \in {"lik", "loo"} : Tune(s, t[1], t[2], v, v, c)
  \/ \E p \in Places : (Exact(gp[s]) /\ Save(s, p)) \/ (\E r \in BOOLEAN : Load(s, p, r))
\* the stored criterion values do not influence anything
View == <<[s \in Slots |-> [gp[s] EXCEPT !.lik = None, !.loo = None]], [p \in Places |-> IF disk[p] = None THEN None ELSE [disk[p] EXCEPT !.lik = None, !.loo = None]]>>
Depth == TLCGet("level") <= MaxLevel
Spec == Init /\ [][Next]_gpVars
\* C12: what was saved exact is exact when loaded, with or without recomputation
LoadExact == \A s \in Slots, p \in Places, r \in BOOLEAN : disk[p] # None => Exact(DoLoad(gp[s], disk[p], r))
\* C11: tuning leaves an exact model exact and its stored criterion current
TuneExact == \A s \in Slots, k, v \in Vs, tm \in BOOLEAN : (Exact(gp[s]) /\ gp[s].data # <<>>) =>
                  LET a == DoTune(gp[s], TRUE, tm, k, v, "lik") b == DoTune(gp[s], TRUE, tm, k, v, "loo")
                  IN Exact(a) /\ a.lik = CurLik(a) /\ Exact(b) /\ b.loo = CurLoo(b)
=============================================================================
