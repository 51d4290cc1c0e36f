---------------------------------- MODULE GP ----------------------------------
(* Gaussian process models (model/gp.hpp) as a set of cached quantities. Each numeric quantity is represented by
   what it was computed from: the data (sequence of pairs <<x, y>> of identifiers), the version of the kernel
   parameters and the version of the mean parameters. "Exact" means: computed from the current ones.           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots, Places
VARIABLES gp,     \* slot -> model
          disk    \* place -> saved model or None
gpVars == <<gp, disk>>

None == <<>>
Mixed == <<"mixed">>
Tag(d, v, dims) == <<"of", d, v, dims>>
\* an unused model; dims = <<0, 0>>: unknown
Fresh0(dims) == [dims |-> dims, data |-> <<>>, kv |-> 1, mv |-> 1,
                 K |-> Tag(<<>>, 1, dims), L |-> Tag(<<>>, 1, dims), om |-> Tag(<<>>, 1, dims), al |-> <<Tag(<<>>, 1, dims), Tag(<<>>, 1, dims)>>,
                 inv |-> None, invok |-> FALSE, lik |-> None, loo |-> None]

\* --------------------------------------------------------------------- building blocks
WithObsMean(m) == [m EXCEPT !.om = Tag(m.data, m.mv, m.dims)]
WithAlpha(m) == [m EXCEPT !.al = <<m.L, m.om>>]
WithFull(m) == WithAlpha([m EXCEPT !.K = Tag(m.data, m.kv, m.dims), !.L = Tag(m.data, m.kv, m.dims), !.invok = FALSE])
\* one more line in the kernel matrix and in its decomposition, computed with the current parameters
WithLine(m) ==
  LET n == Len(m.data)
      old == SubSeq(m.data, 1, n - 1)
      k == IF m.K = Tag(old, m.kv, m.dims) \/ n = 1 THEN Tag(m.data, m.kv, m.dims) ELSE Mixed
      l == IF (m.L = Tag(old, m.kv, m.dims) \/ n = 1) /\ k # Mixed THEN Tag(m.data, m.kv, m.dims) ELSE Mixed
  IN WithAlpha([m EXCEPT !.K = k, !.L = l, !.invok = FALSE])
\* new functions (default parameters) when the dimensions change
WithDims(m, dims) == [m EXCEPT !.dims = dims,
                               !.kv = IF m.dims[1] = dims[1] THEN m.kv ELSE 1,
                               !.mv = IF m.dims[2] = dims[2] THEN m.mv ELSE 1]
WithInv(m) == IF m.invok THEN m ELSE [m EXCEPT !.inv = m.L, !.invok = TRUE]

\* --------------------------------------------------------------------- operations on one model
DoCompute(m, d, dims, ck) ==
  LET a == WithObsMean([WithDims(m, dims) EXCEPT !.data = d]) IN IF ck THEN WithFull(a) ELSE a
DoAdd(m, p, dims) ==
  LET a == IF m.data = <<>> THEN WithDims(m, dims) ELSE m
  IN WithLine(WithObsMean([a EXCEPT !.data = Append(a.data, p)]))
DoSetK(m, v) == [m EXCEPT !.kv = v]
DoSetM(m, v) == [m EXCEPT !.mv = v]
DoRecompute(m, om, fk) ==
  LET a == IF om THEN WithObsMean(m) ELSE m IN IF fk THEN WithFull(a) ELSE WithAlpha(a)

\* what derived quantities are computed from
LikTag(m) == <<m.om, m.al, m.L>>
LooTag(m) == <<WithInv(m).inv, m.al>>
GradTag(m) == <<WithInv(m).inv, m.al, m.data, m.kv>>
MGradTag(m) == <<WithInv(m).inv, m.om, m.data, m.mv>>
DoLik(m) == [m EXCEPT !.lik = LikTag(m)]
DoLoo(m) == [WithInv(m) EXCEPT !.loo = LooTag(m)]
DoGrad(m) == WithInv(m)

\* the model tuned its parameters (kernel and/or mean) by maximising a criterion
DoTune(m, tk, tm, k, v, crit) ==
  LET a == [m EXCEPT !.kv = IF tk THEN k ELSE m.kv, !.mv = IF tm THEN v ELSE m.mv]
      b == WithFull(IF tm THEN WithObsMean(a) ELSE a)
  IN IF crit = "loo" THEN DoLoo(b) ELSE DoLik(b)

\* loading: everything comes from the archive (rec: recomputed, otherwise L and alpha are read)
DoLoad(m, s, rec) ==
  LET a == WithObsMean([m EXCEPT !.dims = s.dims, !.data = s.data, !.kv = s.kv, !.mv = s.mv])
  IN IF rec THEN WithFull(a)
     ELSE [a EXCEPT !.L = s.L, !.K = s.L, !.al = s.al, !.invok = FALSE]

\* --------------------------------------------------------------------- exactness
Known(m) == m.dims # <<0, 0>>
KernelOK(m) == m.L = Tag(m.data, m.kv, m.dims) /\ m.K = m.L
MeanOK(m) == m.om = Tag(m.data, m.mv, m.dims)
Exact(m) == m.data = <<>> \/ (KernelOK(m) /\ MeanOK(m) /\ m.al = <<m.L, m.om>>)
CurLik(m) == <<Tag(m.data, m.mv, m.dims), <<Tag(m.data, m.kv, m.dims), Tag(m.data, m.mv, m.dims)>>, Tag(m.data, m.kv, m.dims)>>
CurLoo(m) == <<Tag(m.data, m.kv, m.dims), <<Tag(m.data, m.kv, m.dims), Tag(m.data, m.mv, m.dims)>>>>
\* a decomposition of the right size exists
Sized(m) == m.data # <<>> /\ m.L[1] = "of" /\ Len(m.L[2]) = Len(m.data)

\* --------------------------------------------------------------------- state machine
Set(s, m) == gp' = [gp EXCEPT ![s] = m]
Construct(s, dims) == Set(s, Fresh0(dims)) /\ UNCHANGED disk
Compute(s, d, dims, ck) == d # <<>> /\ Set(s, DoCompute(gp[s], d, dims, ck)) /\ UNCHANGED disk
Add(s, p, dims) == /\ gp[s].data # <<>> => (dims = gp[s].dims /\ Sized(gp[s]))
                   /\ Set(s, DoAdd(gp[s], p, dims)) /\ UNCHANGED disk
SetK(s, v) == Known(gp[s]) /\ Set(s, DoSetK(gp[s], v)) /\ UNCHANGED disk
SetM(s, v) == Known(gp[s]) /\ Set(s, DoSetM(gp[s], v)) /\ UNCHANGED disk
Recompute(s, om, fk) == /\ gp[s].data # <<>> /\ (fk \/ Sized(gp[s]))
                        /\ Set(s, DoRecompute(gp[s], om, fk)) /\ UNCHANGED disk
Query(s) == Known(gp[s]) /\ UNCHANGED gpVars
Lik(s) == Sized(gp[s]) /\ Set(s, DoLik(gp[s])) /\ UNCHANGED disk
Loo(s) == Sized(gp[s]) /\ Set(s, DoLoo(gp[s])) /\ UNCHANGED disk
Grad(s) == Sized(gp[s]) /\ Set(s, DoGrad(gp[s])) /\ UNCHANGED disk
Inv(s) == Sized(gp[s]) /\ Set(s, [gp[s] EXCEPT !.inv = gp[s].L, !.invok = TRUE]) /\ UNCHANGED disk
PutLik(s, v) == Set(s, [gp[s] EXCEPT !.lik = <<"set", v>>]) /\ UNCHANGED disk
PutLoo(s, v) == Set(s, [gp[s] EXCEPT !.loo = <<"set", v>>]) /\ UNCHANGED disk
Copy(s, t) == Set(t, gp[s]) /\ UNCHANGED disk
Tune(s, tk, tm, k, v, crit) == gp[s].data # <<>> /\ Set(s, DoTune(gp[s], tk, tm, k, v, crit)) /\ UNCHANGED disk
Save(s, p) == gp[s].data # <<>> /\ disk' = [disk EXCEPT ![p] = gp[s]] /\ UNCHANGED gp
Load(s, p, rec) == disk[p] # None /\ Set(s, DoLoad(gp[s], disk[p], rec)) /\ UNCHANGED disk

GPInit == gp = [s \in Slots |-> Fresh0(<<0, 0>>)] /\ disk = [p \in Places |-> None]
------------------------------------------------------------------------------
(* Design properties *)
\* C10: the cached inverse is never used stale
InvFresh == \A s \in Slots : gp[s].invok => gp[s].inv = gp[s].L
DerivedCurrent == \A s \in Slots : (Exact(gp[s]) /\ gp[s].data # <<>>) =>
                     LikTag(gp[s]) = CurLik(gp[s]) /\ LooTag(gp[s]) = CurLoo(gp[s])
\* C09: operations keep an exact model exact (or make it exact)
KeepsExact == \A s \in Slots : Exact(gp[s]) =>
                  \A p \in {<<1, 1>>, <<3, 1>>} : /\ Exact(DoAdd(gp[s], p, IF gp[s].data = <<>> THEN <<1, 1>> ELSE gp[s].dims))
                                               /\ Exact(DoRecompute(gp[s], TRUE, TRUE)) /\ Exact(DoRecompute(gp[s], TRUE, FALSE))
                                               /\ Exact(DoCompute(gp[s], <<p>>, <<2, 1>>, TRUE))
\* incremental = batch: an exact model is determined by its data and parameters
Canonical == \A s, t \in Slots : (Exact(gp[s]) /\ Exact(gp[t]) /\ gp[s].data = gp[t].data /\ gp[s].data # <<>> /\ gp[s].kv = gp[t].kv /\ gp[s].mv = gp[t].mv)
                => (gp[s].L = gp[t].L /\ gp[s].al = gp[t].al /\ gp[s].K = gp[t].K)
=============================================================================
