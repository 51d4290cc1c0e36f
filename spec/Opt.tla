--------------------------------- MODULE Opt ---------------------------------
(* The gradient optimisers (opt/rprop.hpp, gradient_ascent.hpp, adam.hpp) step by step. Positions are integers
   in units of 1/cfg.u. The objective is arbitrary: each evaluation gives any value and any gradient.          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg,   \* alg, u, iters, bounded, dim, eps, gamma2 (2 * gamma), nesterov, tiny (Adam: gradients in units of 1e-8)
          pc,    \* "run" or "done"
          x,     \* current point
          aux,   \* per-coordinate state: rprop <<delta, old gradient>>, ga <<velocity>>, adam <<M, V>>
          it,    \* iterations done
          seen   \* evaluated points with their value
optVars == <<cfg, pc, x, aux, it, seen>>

Nan == 99
MInf == -100
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Clamp(c, v) == IF c.bounded THEN Max(0, Min(v, c.u)) ELSE v
Dim == 1..cfg.dim
RECURSIVE SumSq(_)
SumSq(s) == IF s = <<>> THEN 0 ELSE s[1] * s[1] + SumSq(Tail(s))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Sqrt(q) == CHOOSE r \in 0..2000 : r * r <= q /\ q < (r + 1) * (r + 1)
Times12(d) == (d \div 10) * 12 + ((d % 10) * 12) \div 10       \* d * 1.2, without overflow

Aux0(c) == CASE c.alg = "rprop" -> [j \in 1..c.dim |-> <<c.u \div 10, 0>>]
             [] c.alg = "ga" -> [j \in 1..c.dim |-> <<0>>]
             [] c.alg = "adam" -> [j \in 1..c.dim |-> <<0, 0>>]
OptInit(c, s) == /\ cfg = c /\ x = [j \in 1..c.dim |-> Clamp(c, s[j])] /\ aux = Aux0(c) /\ it = 0 /\ seen = <<>>
                 /\ pc = IF c.iters = 0 THEN "done" ELSE "run"
OptNew(c, s) == /\ cfg' = c /\ x' = [j \in 1..c.dim |-> Clamp(c, s[j])] /\ aux' = Aux0(c) /\ it' = 0 /\ seen' = <<>>
                /\ pc' = IF c.iters = 0 THEN "done" ELSE "run"

\* where the objective is evaluated
At(y) == IF cfg.alg = "ga" /\ cfg.nesterov THEN [j \in Dim |-> Clamp(cfg, y[j] + (aux[j][1] * cfg.gamma2) \div 2)] ELSE y

\* --- Rprop: adaptive steps in the direction of the sign of the gradient
DMin == cfg.u \div 1000000
DMax == 50 * cfg.u
RDelta(j, g) == LET d == aux[j][1] p == aux[j][2] * g[j]
                IN IF p > 0 THEN (IF d \div cfg.u >= 40 THEN Min(Times12(d), DMax) ELSE Times12(d))
                   ELSE IF p < 0 THEN Max(d \div 2, DMin) ELSE d
RGrad(j, g) == IF aux[j][2] * g[j] < 0 THEN 0 ELSE g[j]
\* --- gradient ascent (alpha = 1/4)
GVel(j, g) == (aux[j][1] * cfg.gamma2) \div 2 + (g[j] * cfg.u) \div 4
\* --- Adam (alpha = 1/4, b1 = 1/2, b2 = 3/4, u = 1000): M = m * 2^t, V = v * 4^t
AM(j, g) == aux[j][1] + g[j] * Pow(2, it)                 \* m*2^t = (m/2 + g/2)*2^t
AV(j, g) == aux[j][2] * 3 + g[j] * g[j] * Pow(4, it)      \* v*4^t = (3v/4 + g^2/4)*4^t
AStep(j, g) == LET t == it + 1 M == AM(j, g) V == AV(j, g)
                   b == Pow(2, t) - 1 a == Pow(4, t) - Pow(3, t)
               IN IF V = 0 THEN 0
                  ELSE IF cfg.tiny THEN Sgn(M) * ((25000 * Abs(M)) \div (b * (Sqrt((10000 * V) \div a) + 100)))  \* m / (sqrt(v) + 1e-8)
                  ELSE Sgn(M) * Sqrt(((((62500 * M * M) \div (b * b)) * a) \div V))

Move(j, y, g) == Clamp(cfg, CASE cfg.alg = "rprop" -> y[j] + Sgn(RGrad(j, g)) * RDelta(j, g)
                              [] cfg.alg = "ga" -> y[j] + GVel(j, g)
                              [] cfg.alg = "adam" -> y[j] + AStep(j, g))
\* the distance compared with the tolerance (squared)
Dist(y, g) == IF cfg.alg = "rprop" THEN SumSq([j \in Dim |-> 2 * RGrad(j, g)]) ELSE SumSq([j \in Dim |-> Move(j, y, g) - y[j]])
Tight == IF cfg.alg = "adam" THEN 3 ELSE 0                 \* imprecision of the distance
MustStop(d) == cfg.eps > Tight /\ d < (cfg.eps - Tight) * (cfg.eps - Tight)
MayStop(d) == cfg.eps > 0 /\ d < (cfg.eps + Tight) * (cfg.eps + Tight)

\* one evaluation at point At(y), y being the current point (as computed, or as recorded)
Step(y, q, val, g) ==
  /\ pc = "run"
  /\ x' = [j \in Dim |-> Move(j, y, g)]
  /\ aux' = [j \in Dim |-> CASE cfg.alg = "rprop" -> <<RDelta(j, g), RGrad(j, g)>>
                             [] cfg.alg = "ga" -> <<GVel(j, g)>>
                             [] cfg.alg = "adam" -> <<AM(j, g), AV(j, g)>>]
  /\ it' = it + 1
  /\ seen' = Append(seen, <<q, val>>)
  /\ LET d == Dist(y, g) IN
     pc' \in IF it + 1 >= cfg.iters \/ MustStop(d) THEN {"done"} ELSE IF MayStop(d) THEN {"done", "run"} ELSE {"run"}
  /\ UNCHANGED cfg

\* admissible results
Good(v) == v # Nan /\ v # MInf
Bests == LET c == {k \in DOMAIN seen : Good(seen[k][2])} IN
         IF c = {} THEN DOMAIN seen ELSE {k \in c : \A m \in c : seen[m][2] <= seen[k][2]}
Results == IF cfg.alg = "rprop" /\ seen # <<>> THEN {seen[k][1] : k \in Bests} ELSE {x}
------------------------------------------------------------------------------
InBox == cfg.bounded => \A j \in Dim : x[j] \in 0..cfg.u /\ \A k \in DOMAIN seen : seen[k][1][j] \in 0..cfg.u
Budget == it <= cfg.iters
DeltaRange == cfg.alg = "rprop" => \A j \in Dim : aux[j][1] \in DMin..DMax
NeverWorse == (cfg.alg = "rprop" /\ pc = "done" /\ seen # <<>>) =>
                \E k \in DOMAIN seen : seen[k][1] \in Results /\ (Good(seen[1][2]) => seen[k][2] >= seen[1][2])
=============================================================================
