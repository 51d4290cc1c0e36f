------------------------------ MODULE TreeGen -------------------------------
(* Sequences of calls for the driver; the cells are chosen by the real algorithm, so the generator only picks what the user chooses. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxCalls
VARIABLES h, calls, done
R(S) == {RandomElement(S)}
Init == h = <<>> /\ calls = 0 /\ done = FALSE
Begin == /\ h = <<>> /\ \E d \in R({1, 1, 2, 2, 3, 4}), s \in R(1..1000000), k \in R({"peak", "noise", "flat", "steps", "corner"}),
                            m \in R({"gp", "mock", "mock"}), a \in R({"first", "last", "sum"}) :
               h' = <<[e |-> "new", dim |-> d, seed |-> s, kind |-> k, model |-> m, afun |-> a]>>
         /\ UNCHANGED <<calls, done>>
Call == /\ h # <<>> /\ calls < MaxCalls
        /\ \E r \in R({TRUE, FALSE, FALSE}), it \in R(0..30) : h' = Append(h, [e |-> "start", reset |-> r, iters |-> it])
        /\ calls' = calls + 1 /\ UNCHANGED done
Finish == h # <<>> /\ calls > 0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<h, calls>>
Next == Begin \/ (~done /\ (Call \/ Call \/ Finish))
Spec == Init /\ [][Next]_<<h, calls, done>>
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
