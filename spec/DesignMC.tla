------------------------------ MODULE DesignMC -------------------------------
EXTENDS Design
CONSTANTS B, N
Cfgs == {[k |-> k, dim |-> d, n |-> n, bins |-> b, bounded |-> TRUE] : k \in {"none", "grid", "rgrid", "random", "lhs"}, d \in 1..2, n \in 0..N, b \in 1..B}
Init == \E c \in Cfgs : cfg = c /\ pts = <<>> /\ rec = <<>> /\ st = "design"
Next == (\E p \in [1..cfg.dim -> 0..N] : Eval(p)) \/ End \/ Again
Spec == Init /\ [][Next]_desVars
=============================================================================
