------------------------------- MODULE Parego --------------------------------
(* ParEGO (experimental/model/gp_parego.hpp, experimental/bayes_opt/parego.hpp). Every training of the model turns all the vectors of
   objectives it is given into numbers with one freshly drawn weight vector lambda (non-negative, of sum one):
       s(y) = max_j lambda_j y_j + rho * sum_j lambda_j y_j                 (augmented weighted maximum)
   The model is observed through its training data. The first d observations of every history are the unit vectors e_1..e_d, so the weights
   are known: s(e_j) = lambda_j (1 + rho). Numbers are x Scale; rho is in thousandths.
   cfg = [d, rho, ninit, iters, hp]; mod = the pairs the model was trained with, w = what was seen of its weights, fresh = trained since.   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, pc, hist, mod, w, fresh, it, tot, left
paVars == <<cfg, pc, hist, mod, w, fresh, it, tot, left>>
Scale == 20000
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Sum(_), MaxS(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
MaxS(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == MaxS(Tail(s)) IN IF s[1] > m THEN s[1] ELSE m
\* 1000 (1 + rho) s(y) with a_j = (1 + rho) lambda_j
Times(a, y) == [j \in DOMAIN y |-> a[j] * y[j]]
AugMax(a, y, r) == 1000 * MaxS(Times(a, y)) + r * Sum(Times(a, y))
\* --- what is seen of a model trained with m: numbers s, one per pair
Weights(s) == [j \in 1..cfg.d |-> s[j]]
Known(m) == IF Len(m) < cfg.d THEN Len(m) ELSE cfg.d
WeightsOk(m, s) ==
  /\ \A j \in 1..Known(m) : s[j] >= 0
  /\ LET t == Sum([j \in 1..Known(m) |-> s[j]]) * 1000 IN
       IF Len(m) >= cfg.d THEN Abs(t - Scale * (1000 + cfg.rho)) <= 3000 ELSE t <= Scale * (1000 + cfg.rho) + 3000
Scalarised(m, s) ==
  /\ Len(s) = Len(m)
  /\ WeightsOk(m, s)
  /\ Len(m) >= cfg.d => \A i \in DOMAIN m : Abs((1000 + cfg.rho) * s[i] - AugMax(Weights(s), m[i][2], cfg.rho)) <= 60000
Xs(m) == [i \in DOMAIN m |-> m[i][1]]
Ys(m) == [i \in DOMAIN m |-> m[i][2]]
\* the model is looked at: ws identifies the weights exactly
Look(xs, s, ws) ==
  /\ xs = Xs(mod) /\ Scalarised(mod, s)
  /\ mod # <<>> => (IF fresh THEN (cfg.d >= 2 => ws # w) ELSE ws = w)
  /\ w' = ws /\ fresh' = FALSE /\ UNCHANGED <<cfg, pc, hist, mod, it, tot, left>>
------------------------------------------------------------------------------
PInit(c) == cfg = c /\ pc = "idle" /\ hist = <<>> /\ mod = <<>> /\ w = "" /\ fresh = FALSE /\ it = 0 /\ tot = 0 /\ left = 0
Train(h) == mod' = h /\ fresh' = (h # <<>>)
\* --- the model alone
Compute(d, h) == pc = "idle" /\ h # <<>> /\ cfg' = [cfg EXCEPT !.d = d] /\ Train(h) /\ UNCHANGED <<pc, hist, w, it, tot, left>>
Add(x, y) == pc = "idle" /\ Train(Append(mod, <<x, y>>)) /\ UNCHANGED <<cfg, pc, hist, w, it, tot, left>>
\* copying, recomputing or tuning does not draw weights again
Keep == pc = "idle" /\ UNCHANGED paVars
\* --- the optimiser
ToLoop == pc' = "loop" /\ Train(hist')
Start(reset) ==
  /\ pc = "idle" /\ it' = 0 /\ tot' = IF reset THEN 0 ELSE tot
  /\ hist' = IF reset THEN <<>> ELSE hist
  /\ (IF tot' = 0 /\ cfg.ninit > 0 THEN pc' = "init" /\ left' = cfg.ninit /\ UNCHANGED <<mod, fresh>> ELSE ToLoop /\ left' = 0)
  /\ UNCHANGED <<cfg, w>>
EvalInit(x, ok, y) ==
  /\ pc = "init"
  /\ IF ok THEN /\ hist' = Append(hist, <<x, y>>) /\ left' = left - 1
                /\ (IF left = 1 THEN ToLoop ELSE UNCHANGED <<pc, mod, fresh>>)
     ELSE pc' = "idle" /\ UNCHANGED <<hist, left, mod, fresh>>
  /\ UNCHANGED <<cfg, it, tot, w>>
Propose == pc = "loop" /\ it < cfg.iters /\ pc' = "eval"
EvalLoop(x, ok, y) ==
  /\ pc = "eval"
  /\ IF ok THEN hist' = Append(hist, <<x, y>>) /\ pc' = "loop" /\ it' = it + 1 /\ tot' = tot + 1 /\ Train(hist')
     ELSE pc' = "idle" /\ UNCHANGED <<hist, it, tot, mod, fresh>>
  /\ UNCHANGED <<cfg, left, w>>
End == pc = "loop" /\ it >= cfg.iters /\ pc' = "idle" /\ UNCHANGED <<cfg, hist, mod, w, fresh, it, tot, left>>
------------------------------------------------------------------------------
TrainedOnAll == pc \in {"loop", "eval"} => mod = hist
=============================================================================
