-------------------------------- MODULE MetaMC -------------------------------
EXTENDS Meta
VARIABLE ret
Vals == {-1, 1, Nan, MInf}
Cfgs == {[k |-> "grid", bins |-> 1, dim |-> 2, vals |-> v] : v \in [1..4 -> Vals]}
        \cup {[k |-> "repeat", n |-> 3, vals |-> v, bounded |-> TRUE] : v \in [1..3 -> Vals]}
        \cup {[k |-> "chain", n |-> n, codes |-> [i \in 1..(n + 1) |-> i], bounded |-> FALSE] : n \in 1..3}
Init == \E c \in Cfgs : cfg = c /\ st = "run" /\ ran = (IF c.k = "chain" THEN 0 ELSE {}) /\ ret = <<>>
Next == \/ cfg.k = "grid" /\ ((\E p \in Grid : GridEval(p) /\ UNCHANGED ret) \/ (\E p \in Grid : GridReturn(p) /\ ret' = p))
        \/ cfg.k = "repeat" /\ ((\E i \in 1..3 : Start(i, TRUE, TRUE) /\ UNCHANGED ret) \/ \E i \in 0..3 : RepeatReturn(i) /\ ret' = <<i>>)
        \/ cfg.k = "chain" /\ ((\E i, c \in 1..4 : Stage(i, c, FALSE) /\ UNCHANGED ret) \/ \E c \in 1..4 : ChainReturn(c) /\ ret' = <<c>>)
Spec == Init /\ [][Next]_<<metaVars, ret>> /\ WF_<<metaVars, ret>>(Next)
\* nothing that could be returned is better than what is returned
NoBetter == (st = "done" /\ cfg.k = "grid") => ~\E p \in Grid : Good(Val(p)) /\ (~Good(Val(ret)) \/ Val(p) > Val(ret))
NoBetterRun == (st = "done" /\ cfg.k = "repeat") => ~\E i \in ran : Good(RepVal(i)) /\ (ret = <<0>> \/ ~Good(RepVal(ret[1])) \/ RepVal(i) > RepVal(ret[1]))
AllRun == (st = "done" /\ cfg.k = "repeat") => Cardinality(ran) = cfg.n
Terminates == <>(st = "done")
=============================================================================
