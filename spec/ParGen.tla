-------------------------------- MODULE ParGen -------------------------------
EXTENDS Par, TLC, Json
CONSTANTS MaxN
VARIABLES h
R(S) == {RandomElement(S)}
Init == op = <<>> /\ began = {} /\ ended = {} /\ returned = FALSE /\ h = <<>>
Config == /\ h = <<>>
          /\ \E k \in R({"loop", "nested", "foreach", "replicate", "max", "max", "sort", "collect", "big"}), m \in R(1..4), lo \in R(0..9), d \in R(BOOLEAN), w \in R(1..20), i \in R(-3..20) :
             \E n \in R(CASE m = 1 -> 0..2 [] m = 2 -> 3..8 [] OTHER -> 9..MaxN) :
             \E ks \in {[j \in 1..n |-> RandomElement(0..w)]} :
             LET o == [k |-> k, lo |-> lo, n |-> IF k = "nested" THEN n \div 3 ELSE IF k = "big" THEN RandomElement({100, 255, 256, 257, 999, 1000, 1001, 1024, 1025, 4096, 5000, 20011}) ELSE n, keys |-> IF k \in {"max", "sort"} THEN ks ELSE <<>>, init |-> i, desc |-> d, inner |-> IF k = "nested" THEN 3 ELSE 0]
             IN op' = o /\ h' = <<o>>
          /\ UNCHANGED <<began, ended>> /\ returned' = FALSE
Finish == h # <<>> /\ ~returned /\ returned' = TRUE /\ UNCHANGED <<op, began, ended, h>>
Spec == Init /\ [][Config \/ Finish]_<<parVars, h>>
Emit == returned => PrintT("@@" \o ToJson(h))
=============================================================================
