-------------------------------- MODULE BoxGen -------------------------------
EXTENDS Box, TLC, Json
CONSTANTS Kinds, Native, Grad, MaxCalls
  \* Native: not based on NLopt, which expects finite values; Grad: NLopt with gradients, which expects the true gradient of a smooth function
VARIABLES h, done, todo
R(S) == {RandomElement(S)}
\* classes of starting coordinates: code -> class
Starts == [c0 |-> "in", c1 |-> "in", c2 |-> "in", c3 |-> "low", c4 |-> "low", c5 |-> "high", c6 |-> "high", c7 |-> "high"]
Init == kind = "none" /\ call = NoCall /\ engine = [dim |-> 0, bounded |-> FALSE] /\ pt = <<"in">> /\ ncalls = 0 /\ h = <<>> /\ done = FALSE /\ todo = 0
Config == /\ kind = "none"
          /\ \E k \in R(Kinds), n \in R(1..MaxCalls) : New(k) /\ todo' = n /\ h' = <<[e |-> "new", kind |-> k]>>
          /\ UNCHANGED done
GCall == /\ kind # "none" /\ ncalls < todo
         /\ \E bb \in R(1..3), d \in R(1..4), o \in R(IF kind \in Native THEN 0..9 ELSE IF kind \in Grad THEN {0, 1, 2, 3, 5, 6} ELSE 0..7) : \E s \in {[j \in 1..d |-> RandomElement(DOMAIN Starts)]} :
              LET b == OnlyBounded(kind) \/ bb > 1 IN
              Call(b, d, [j \in 1..d |-> Starts[s[j]]]) /\ h' = Append(h, [e |-> "call", bounded |-> b, dim |-> d, obj |-> o, start |-> s])
         /\ UNCHANGED <<done, todo>>
GReturn == call.on /\ Return([j \in 1..call.dim |-> "in"]) /\ UNCHANGED <<h, done, todo>>
Finish == kind # "none" /\ ncalls = todo /\ ~call.on /\ ~done /\ done' = TRUE /\ UNCHANGED <<boxVars, h, todo>>
Next == Config \/ GCall \/ GReturn \/ Finish
Spec == Init /\ [][Next]_<<boxVars, h, done, todo>>
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
