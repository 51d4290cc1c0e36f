------------------------------- MODULE AcquiGen -------------------------------
EXTENDS Acqui, TLC, Json
CONSTANTS MaxOps, NPts
VARIABLES h, done
gv == <<aqVars, h, done>>
R(S) == {RandomElement(S)}
Pts == 1..NPts
Mu(d) == [p \in Pts |-> [j \in 1..d |-> RandomElement(-3..3)]]
\* (an argument: TLC evaluates a constant definition once)
Sd(d) == [p \in Pts |-> RandomElement({0, 1, 2, 3, Tiny})]
Log(e) == h' = Append(h, e) /\ UNCHANGED done
Init == AqInit /\ h = <<>> /\ done = FALSE
Config == /\ h = <<>>
          /\ \E k \in R(1..3), din \in R(1..4), d \in R(1..2) : \E m \in {Mu(d)}, n \in {Mu(d)}, s \in {Sd(d)}, t \in {Sd(d)} :
               /\ NewCfg([k |-> k, din |-> din, dout |-> d], [samp |-> <<>>, mu |-> m, sd |-> s], [samp |-> <<>>, mu |-> n, sd |-> t])
               /\ Log([e |-> "new", cfg |-> cfg', mu |-> m, sd |-> s, cmu |-> n, csd |-> t])
GMake == /\ Len(objs) < 4
         /\ \E kind \in R({"ucb", "gpucb", "ei", "ei", "eci", "imgpo"}), it \in R({Its[i] : i \in DOMAIN Its}) : Make(kind, it) /\ Log([e |-> "make", kind |-> kind, it |-> it])
\* models also gain points they already have, and predictions that go down
GGain == \E x \in R(Pts), m \in {Mu(cfg.dout)}, s \in {Sd(cfg.dout)} : Gain(x, m, s) /\ Log([e |-> "gain", x |-> x, mu |-> m, sd |-> s])
GGainC == \E x \in R(Pts), m \in {Mu(cfg.dout)}, s \in {Sd(cfg.dout)} : GainC(x, m, s) /\ Log([e |-> "cgain", x |-> x, mu |-> m, sd |-> s])
GEval == \E i \in R(DOMAIN objs), b \in R(Aggs), x \in R(Pts) :
            LET a == IF objs[i].kind \in {"ei", "eci"} /\ objs[i].agg # "" THEN objs[i].agg ELSE b
            IN /\ objs' = [objs EXCEPT ![i].agg = a] /\ UNCHANGED <<cfg, mod, con>>
               /\ Log([e |-> "eval", o |-> i, a |-> a, x |-> x])
Finish == Len(h) >= MaxOps /\ done' = TRUE /\ UNCHANGED <<aqVars, h>>
Op == Len(h) < MaxOps /\ (IF objs = <<>> THEN GMake ELSE \E c \in R(1..10) :
         CASE c <= 5 -> GEval [] c \in {6, 7, 8} -> GGain [] c = 9 -> GGainC [] OTHER -> IF Len(objs) < 4 THEN GMake ELSE GEval)
Next == Config \/ (h # <<>> /\ ~done /\ (Op \/ Finish))
Spec == Init /\ [][Next]_gv
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
