-------------------------------- MODULE ParMC --------------------------------
(* Threads: at most W bodies run at once; the maximum is a reduction over any splitting of the range, joined in any order of
   adjacent pieces (tbb::parallel_reduce).                                                                               *)
EXTENDS Par
CONSTANTS N, W, Keys
VARIABLE pieces, part   \* free ranges, partial results <<lo, hi, index>>
KeySeqs == [1..N -> Keys]
Ops == {[k |-> "max", lo |-> 0, n |-> N, keys |-> ks, init |-> i, desc |-> d, inner |-> 0] : ks \in KeySeqs, i \in Keys, d \in BOOLEAN}
       \cup {[k |-> q, lo |-> 2, n |-> N, keys |-> <<>>, init |-> 0, desc |-> FALSE, inner |-> 1] : q \in {"loop", "nested", "foreach", "replicate", "collect"}}
Init == \E o \in Ops : op = o /\ began = {} /\ ended = {} /\ returned = FALSE /\ part = {} /\ pieces = IF o.k = "max" THEN {<<0, o.n - 1>>} ELSE {}
Running == began \ ended
KeyOf(i) == IF i = -1 THEN op.init ELSE op.keys[i + 1]
Pick(a, b) == IF Better(op, KeyOf(a), KeyOf(b)) THEN a ELSE b       \* joint
Split == \E p \in pieces : \E m \in p[1]..(p[2] - 1) : pieces' = (pieces \ {p}) \cup {<<p[1], m>>, <<m + 1, p[2]>>} /\ UNCHANGED <<parVars, part>>
\* a thread starts a piece with the initial value; later bodies extend its partial result
StartPiece == \E p \in pieces : Cardinality(Running) < W /\ Begin(<<p[1], 0>>) /\ pieces' = (pieces \ {p})
                \cup (IF p[1] < p[2] THEN {<<p[1] + 1, p[2]>>} ELSE {}) /\ part' = part \cup {<<p[1], p[1], -1>>}
EndBody == \E q \in part : <<q[2], 0>> \in Running /\ End(<<q[2], 0>>) /\ part' = (part \ {q}) \cup {<<q[1], q[2], Pick(q[2], q[3])>>} /\ UNCHANGED pieces
Extend == \E q \in part, p \in pieces : p[1] = q[2] + 1 /\ <<q[2], 0>> \in ended /\ Cardinality(Running) < W /\ Begin(<<p[1], 0>>)
            /\ pieces' = (pieces \ {p}) \cup (IF p[1] < p[2] THEN {<<p[1] + 1, p[2]>>} ELSE {}) /\ part' = (part \ {q}) \cup {<<q[1], p[1], q[3]>>}
Join == \E a, b \in part : b[1] = a[2] + 1 /\ <<a[2], 0>> \in ended /\ <<b[2], 0>> \in ended
          /\ part' = (part \ {a, b}) \cup {<<a[1], b[2], Pick(a[3], b[3])>>} /\ UNCHANGED <<parVars, pieces>>
MaxNext == op.k = "max" /\ (Split \/ StartPiece \/ EndBody \/ Extend \/ Join \/ (Cardinality(part) = 1 /\ Return /\ UNCHANGED <<pieces, part>>))
LoopNext == op.k # "max" /\ ((\E b \in Bodies(op) : ((b[2] # 0 \/ Cardinality({r \in Running : r[2] = 0}) < W) /\ Begin(b)) \/ End(b)) \/ Return) /\ UNCHANGED <<pieces, part>>
Next == MaxNext \/ LoopNext
Spec == Init /\ [][Next]_<<parVars, pieces, part>> /\ WF_<<parVars, pieces, part>>(Next)
Result == (returned /\ op.k = "max") => \A q \in part : MaxOk(q[3])
ReturnLast == returned => (AllDone /\ Running = {})
Terminates == <>returned
=============================================================================
