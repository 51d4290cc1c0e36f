------------------------------- MODULE OptGen --------------------------------
EXTENDS Opt, TLC, Json
CONSTANT Mode   \* "short", "long" (step sizes up to the maximum), "small" (down to the minimum)
VARIABLES h, done
R(S) == {RandomElement(S)}
Cfg0 == [alg |-> "none", u |-> 1, iters |-> 0, bounded |-> FALSE, dim |-> 1, eps |-> 0, gamma2 |-> 0, nesterov |-> FALSE, tiny |-> FALSE]
Init == cfg = Cfg0 /\ pc = "config" /\ x = <<0>> /\ aux = <<>> /\ it = 0 /\ seen = <<>> /\ h = <<>> /\ done = FALSE
U(a) == CASE Mode = "long" -> 1000000 [] Mode = "small" -> 1000000000 [] a = "rprop" -> 10000000 [] a = "ga" -> 1024 [] OTHER -> 1000
MaxIt(a) == CASE Mode # "short" -> 45..62 [] a = "adam" -> 0..5 [] OTHER -> 0..8
Starts(b) == CASE Mode = "long" -> 0..1 [] Mode = "small" -> 40..60 [] b -> -20..120 [] OTHER -> -150..150
Config == /\ pc = "config"
          /\ \E a \in R(IF Mode = "short" THEN {"rprop", "ga", "adam"} ELSE {"rprop"}), bb \in R(BOOLEAN), gm \in R({0, 1}), ns \in R(BOOLEAN), ty \in R(BOOLEAN) :
             \E n \in R(MaxIt(a)), d \in R(IF Mode = "short" THEN 1..3 ELSE 1..1),
                e \in R(CASE Mode # "short" -> {0} [] a = "rprop" -> {0, 0, 3} [] a = "ga" -> {0, 0, 100, 700} [] OTHER -> {0, 0, 200}) :
             LET b == IF Mode = "short" THEN bb ELSE Mode = "small"
                 c == [alg |-> a, u |-> U(a), iters |-> n, bounded |-> b, dim |-> d, eps |-> e,
                       gamma2 |-> IF a = "ga" THEN gm ELSE 0, nesterov |-> a = "ga" /\ ns, tiny |-> a = "adam" /\ ty]
             IN \E s \in {[j \in 1..d |-> (c.u \div 100) * RandomElement(Starts(b))]} :
                OptNew(c, s) /\ h' = <<[e |-> "new", cfg |-> c, start |-> s]>>
          /\ UNCHANGED done
Grads == CASE Mode = "long" -> {1, 2, 3} [] Mode = "small" -> {-1, 1} [] OTHER -> -3..3
Alt(j) == IF Mode = "small" THEN (IF x[j] > cfg.u \div 2 THEN -1 ELSE 1) ELSE RandomElement(Grads)
Ev == /\ pc = "run"
      /\ \E v \in R((-3..3) \cup {Nan, MInf}), g \in {[j \in Dim |-> Alt(j)]} :
           Step(x, At(x), v, g) /\ h' = Append(h, [e |-> "ev", v |-> v, g |-> g])
      /\ UNCHANGED done
Finish == pc = "done" /\ ~done /\ done' = TRUE /\ UNCHANGED <<optVars, h>>
Next == Config \/ Ev \/ Finish
Spec == Init /\ [][Next]_<<optVars, h, done>>
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
