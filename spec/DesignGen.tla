------------------------------ MODULE DesignGen ------------------------------
EXTENDS Design, TLC, Json
VARIABLE h
R(S) == {RandomElement(S)}
Init == cfg = <<>> /\ pts = <<>> /\ rec = <<>> /\ st = "config" /\ h = <<>>
Config == /\ st = "config"
          /\ \E k \in R({"none", "grid", "grid", "rgrid", "random", "lhs"}), d \in R(1..4), n0 \in R(0..25), big \in R(1..4), bd \in R(BOOLEAN), runs \in R(1..2) :
             \E b \in R(CASE d = 1 -> 1..30 [] d = 2 -> 1..8 [] d = 3 -> 1..4 [] OTHER -> 1..2) :
             LET n == IF big = 1 /\ k \in {"rgrid", "random"} THEN 200 ELSE n0
                 c == [k |-> k, dim |-> d, n |-> IF k = "lhs" /\ n = 0 THEN 1 ELSE n, bins |-> b, bounded |-> k # "random" \/ bd]
             IN New(c) /\ h' = <<[cfg |-> c, runs |-> runs]>>
Finish == st = "design" /\ st' = "finished" /\ UNCHANGED <<cfg, pts, rec, h>>
Spec == Init /\ [][Config \/ Finish]_<<desVars, h>>
Emit == st = "finished" => PrintT("@@" \o ToJson(h))
=============================================================================
