------------------------------- MODULE AcquiMC --------------------------------
(* Design: an expected-improvement object that keeps the best predicted value together with the number of samples it
   was computed for always uses the current one, as long as the model only gains data; with changes that keep the
   number of samples (Retrain), it would not: the check is run with Retrain disabled, and TLC finds the violation when
   it is enabled (see DESIGN.md).                                                                                   *)
EXTENDS Acqui
CONSTANTS MaxSamples, AllowRetrain
VARIABLES cacheN, cacheF, used, truth
v == <<aqVars, cacheN, cacheF, used, truth>>
Pts == 1..2
Mus == [Pts -> {<<-1>>, <<0>>, <<2>>}]
M0 == [samp |-> <<>>, mu |-> [p \in Pts |-> <<0>>], sd |-> [p \in Pts |-> 1]]
Init == cfg = [k |-> 1, din |-> 1] /\ mod = M0 /\ con = M0 /\ objs = <<[kind |-> "ei", it |-> 0, agg |-> ""]>>
        /\ cacheN = -1 /\ cacheF = 0 /\ used = 0 /\ truth = 0
GainM == Len(mod.samp) < MaxSamples /\ (\E p \in Pts, m \in Mus : Gain(p, m, mod.sd)) /\ UNCHANGED <<cacheN, cacheF, used, truth>>
Retrain == AllowRetrain /\ mod.samp # <<>> /\ (\E m \in Mus : mod' = [mod EXCEPT !.mu = m]) /\ UNCHANGED <<cfg, con, objs, cacheN, cacheF, used, truth>>
EvalM == /\ mod.samp # <<>>
         /\ LET f == IF cacheN = Len(mod.samp) THEN cacheF ELSE FMax(mod, "first")
            IN cacheF' = f /\ used' = f
         /\ cacheN' = Len(mod.samp) /\ truth' = FMax(mod, "first") /\ UNCHANGED aqVars
Next == GainM \/ Retrain \/ EvalM
Spec == Init /\ [][Next]_v
Fresh == used = truth
\* what the formula implies
EIPositive == \A p \in Pts : EI(mod, 1, "first", p) >= 0
EICertain == mod.samp = <<>> => \A p \in Pts : EI(mod, 1, "first", p) = 0
EIMonotone == \A p, q \in Pts : (mod.samp # <<>> /\ mod.mu[p][1] <= mod.mu[q][1]) => EI(mod, 1, "first", p) <= EI(mod, 1, "first", q)
=============================================================================
