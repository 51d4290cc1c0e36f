------------------------------ MODULE ArchiveGen -----------------------------
EXTENDS Archive, TLC, Json
CONSTANTS MaxOps
VARIABLES h, nx, rest, done
gv == <<arVars, h, nx, rest, done>>
R(S) == {RandomElement(S)}
Init == ArInit /\ h = <<[e |-> "new"]>> /\ nx = 1 /\ rest = {} /\ done = FALSE
Large == {127, 128, 255, 256, 257, 300}
Sizes(kind) == IF RandomElement(1..12) = 1
               THEN CASE kind = "mat" -> R((Large \X (1..2)) \cup ((1..2) \X Large)) [] kind = "vec" -> R({<<n>> : n \in Large})
                      [] OTHER -> {[i \in 1..n |-> 1] : n \in R(Large)} \cup {<<1, n, 2>> : n \in R(Large)}
               ELSE CASE kind = "mat" -> R((1..4) \X (1..4)) [] kind = "vec" -> R({<<n>> : n \in 1..6})
                 [] OTHER -> {[i \in 1..n |-> RandomElement(1..4)] : n \in R(1..5)}
GSave == /\ Len(h) < MaxOps
         /\ \E k \in R(Keys), kind \in R({"mat", "vec", "list"}), w \in R({0, 1}) : \E sz \in Sizes(kind) :
              /\ Save(k, Obj(kind, sz, nx)) /\ nx' = nx + 1
              /\ h' = Append(h, [e |-> "save", fmt |-> k[1], dir |-> k[2], name |-> k[3], kind |-> kind, sizes |-> sz, id |-> nx, how |-> w])
         /\ UNCHANGED <<rest, done>>
LoadCmd(k) == \E w \in R({0, 1}) : h' = Append(h, [e |-> "load", fmt |-> k[1], dir |-> k[2], name |-> k[3], kind |-> store[k].kind, how |-> w])
Stored == {k \in Keys : store[k] # None}
GLoad == Len(h) < MaxOps /\ Stored # {} /\ (\E k \in R(Stored) : Load(k) /\ LoadCmd(k)) /\ UNCHANGED <<nx, rest, done>>
\* at the end, every object is loaded once more
End == Len(h) = MaxOps /\ rest = {} /\ ~done /\ rest' = Stored /\ h' = Append(h, [e |-> "end"]) /\ UNCHANGED <<arVars, nx, done>>
Drain == Len(h) > MaxOps /\ rest # {} /\ (\E k \in R(rest) : Load(k) /\ LoadCmd(k) /\ rest' = rest \ {k}) /\ UNCHANGED <<nx, done>>
Finish == Len(h) > MaxOps /\ rest = {} /\ ~done /\ done' = TRUE /\ UNCHANGED <<arVars, h, nx, rest>>
Next == ~done /\ (GSave \/ GLoad \/ End \/ Drain \/ Finish)
Spec == Init /\ [][Next]_gv
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
