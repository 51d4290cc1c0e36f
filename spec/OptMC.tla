-------------------------------- MODULE OptMC --------------------------------
EXTENDS Opt
CONSTANTS MaxIters, D
Cfgs == {[alg |-> a, u |-> 1000, iters |-> n, bounded |-> b, dim |-> D, eps |-> e, gamma2 |-> gm, nesterov |-> ns, tiny |-> ty] :
          a \in {"rprop", "ga", "adam"}, n \in {0, 1, MaxIters}, b \in BOOLEAN, e \in {0, 3}, gm \in {0, 1}, ns \in BOOLEAN, ty \in BOOLEAN}
Ok(c) == (c.tiny => c.alg = "adam") /\ (c.alg = "ga" \/ (c.gamma2 = 0 /\ ~c.nesterov)) /\ (c.alg # "ga" \/ c.gamma2 = 1 \/ ~c.nesterov)
Init == \E c \in {k \in Cfgs : Ok(k)}, s \in {-100, 0, 950} : OptInit(c, [j \in 1..D |-> s])
Next == \E v \in {0, 1, Nan}, g \in [1..D -> {-2, 0, 1}] : Step(x, At(x), v, g)
Spec == Init /\ [][Next]_optVars
=============================================================================
