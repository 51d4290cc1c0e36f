------------------------------- MODULE MetaGen -------------------------------
EXTENDS Meta, TLC, Json
CONSTANT Kind
VARIABLE h
R(S) == {RandomElement(S)}
\* -50 and 50 stand for values beyond the range of a float
V(m) == CASE m = 1 -> {Nan, MInf} [] m = 2 -> {-50, MInf, Nan, -3} [] m = 3 -> {-50, MInf} [] m = 4 -> {0, 1} [] OTHER -> (-3..3) \cup {Nan, MInf, -50, 50}
Sizes == {<<1, b>> : b \in 1..12} \cup {<<2, b>> : b \in 1..6} \cup {<<3, b>> : b \in 1..3} \cup {<<4, 1>>, <<4, 2>>}
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Init == cfg = <<>> /\ st = "config" /\ ran = {} /\ h = <<>>
Config == /\ st = "config"
          /\ CASE Kind = "grid" -> \E z \in R(Sizes), m \in R(1..8) :
                    \E vs \in {[i \in 1..Pow(z[2] + 1, z[1]) |-> RandomElement(V(m))]} :
                    New([k |-> "grid", bins |-> z[2], dim |-> z[1], vals |-> vs])
               [] Kind = "repeat" -> \E n \in R({1, 2, 3, 7, 12, 40}), m \in R(1..8), b \in R(BOOLEAN) :
                    \E vs \in {[i \in 1..n |-> RandomElement(V(m))]} : New([k |-> "repeat", n |-> n, vals |-> vs, bounded |-> b])
               [] Kind = "chain" -> \E n \in R(1..4), b \in R(BOOLEAN) :
                    \E cs \in {[i \in 1..(n + 1) |-> RandomElement(0..9)]} : New([k |-> "chain", n |-> n, codes |-> cs, bounded |-> b])
          /\ h' = <<cfg'>>
Finish == st = "run" /\ st' = "done" /\ UNCHANGED <<cfg, ran, h>>
Spec == Init /\ [][Config \/ Finish]_<<metaVars, h>>
Emit == st = "done" => PrintT("@@" \o ToJson(h))
=============================================================================
