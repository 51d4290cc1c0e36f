-------------------------------- MODULE Sparse --------------------------------
(* Sparsified Gaussian process: which points are kept. Points are numbers; Pos gives their place on an integer grid
   (several points may be at the same place). Distances are square roots of integers, in fixed point.              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg,    \* max, dim, pos (sequence of coordinates of every point)
          kept    \* sequence of points
spVars == <<cfg, kept>>
RECURSIVE ISqrt(_, _, _)
\* integer square root of n by bisection
ISqrt(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN ISqrt(n, m, hi) ELSE ISqrt(n, lo, m - 1)
\* sqrt(d2) x 1000, for d2 up to 2000
Root(d2) == ISqrt(d2 * 1000000, 0, 45000)
RECURSIVE D2(_, _, _)
D2(a, b, i) == IF i = 0 THEN 0 ELSE D2(a, b, i - 1) + ((a[i] - b[i]) * (a[i] - b[i]))
Dist(p, q) == Root(D2(cfg.pos[p], cfg.pos[q], cfg.dim))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE SumSmallest(_, _)
\* sum of the n smallest elements of a sequence
SumSmallest(s, n) == IF n = 0 \/ s = <<>> THEN 0
                     ELSE LET k == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] <= s[j]
                          IN s[k] + SumSmallest(RemoveAt(s, k), n - 1)
Density(s, i) == LET o == RemoveAt(s, i) IN SumSmallest([j \in DOMAIN o |-> Dist(s[i], o[j])], cfg.dim)
\* the candidates for the removal: the densest points (ties, up to the fixed point, are free)
Tol == 2 * cfg.dim + 1
Densest(s) == LET d == [i \in DOMAIN s |-> Density(s, i)]
                  m == d[CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : d[i] <= d[j]]
              IN {i \in DOMAIN s : d[i] <= m + Tol}
Step(S) == UNION {{RemoveAt(s, i) : i \in Densest(s)} : s \in S}
RECURSIVE Shrink(_, _)
Shrink(S, n) == IF n <= cfg.max THEN S ELSE Shrink(Step(S), n - 1)
\* possible results for a sequence of points
Sparsify(s) == Shrink({s}, Len(s))

SpInit == cfg = [max |-> 1] /\ kept = <<>>
NewCfg(c) == cfg' = c /\ kept' = <<>>
Compute(s) == kept' \in Sparsify(s) /\ UNCHANGED cfg
Add(p) == kept' \in Sparsify(Append(kept, p)) /\ UNCHANGED cfg
\* recomputation, reloading from an archive, queries: nothing changes
Same == UNCHANGED spVars
\* properties
Bounded == Len(kept) <= cfg.max
RECURSIVE IsSub(_, _)
IsSub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
               ELSE IF Head(a) = Head(b) THEN IsSub(Tail(a), Tail(b)) ELSE IsSub(a, Tail(b))
=============================================================================
