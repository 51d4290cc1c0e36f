------------------------------- MODULE EhviGen -------------------------------
EXTENDS Ehvi, TLC, Json
CONSTANTS MaxCalls, MaxLen, Mode
VARIABLES h, nx, calls, done
R(S) == {RandomElement(S)}
genVars == <<ehVars, h, nx, calls, done>>
Init == EInit([d |-> 2, ninit |-> 1, iters |-> 0, rx |-> -1, ry |-> -1]) /\ h = <<>> /\ nx = 1 /\ calls = 0 /\ done = FALSE
Config == /\ h = <<>>
          /\ \E d \in R(IF Mode = "run" THEN {2} ELSE 2..4), k \in R(1..4), i \in R(0..5), a \in R({-1, -2, -4}), b \in R({-1, -2, -3}), m \in R(3..5) :
               cfg' = [d |-> d, ninit |-> k, iters |-> i, rx |-> a, ry |-> b]
               /\ h' = <<[e |-> "new", mode |-> Mode, cfg |-> cfg', lazy |-> m]>>
          /\ UNCHANGED <<pc, hist, mods, front, it, tot, left, inner, nx, calls, done>>
Y == [k \in 1..cfg.d |-> RandomElement(0..3)]
DoAdd == \E f \in R(1..8), y \in {Y} : Add(nx, f > 1, y) /\ h' = Append(h, [e |-> "add", x |-> nx, ok |-> f > 1, y |-> y]) /\ nx' = nx + 1 /\ calls' = calls + 1
DoUpd == /\ hist # <<>> /\ \E o \in R({"models", "front"}) : (IF o = "models" THEN UpdateModels ELSE UpdateFront) /\ h' = Append(h, [e |-> o]) /\ calls' = calls + 1
         /\ UNCHANGED nx
MultiNext == Mode = "multi" /\ calls < MaxCalls /\ (DoAdd \/ DoAdd \/ DoUpd) /\ UNCHANGED done
\* the generator does not choose points: the driver does, and the trace specification follows it
Eval == /\ Mode = "run"
        /\ \E f \in R(1..14), y \in {Y} : LET ok == f > 1 IN
             /\ h' = Append(h, [e |-> "eval", ok |-> ok, y |-> y])
             /\ \/ EvalInit(nx, ok, y)
                \/ /\ pc = "loop" /\ it < cfg.iters
                   /\ IF ok THEN hist' = Append(hist, <<nx, y>>) /\ it' = it + 1 /\ tot' = tot + 1 /\ UNCHANGED pc ELSE pc' = "idle" /\ UNCHANGED <<hist, it, tot>>
                   /\ UNCHANGED <<cfg, mods, front, left, inner>>
        /\ nx' = nx + 1 /\ UNCHANGED <<calls, done>>
Call == /\ Mode = "run" /\ calls < MaxCalls /\ Len(hist) < MaxLen
        /\ \E r \in R(BOOLEAN) : Start(r) /\ h' = Append(h, [e |-> "start", reset |-> r])
        /\ calls' = calls + 1 /\ UNCHANGED <<nx, done>>
Quiet == End /\ UNCHANGED <<h, nx, calls, done>>
Finish == pc = "idle" /\ calls > 0 /\ (calls = MaxCalls \/ Len(hist) >= MaxLen) /\ ~done /\ done' = TRUE /\ UNCHANGED <<ehVars, h, nx, calls>>
Next == Config \/ (h # <<>> /\ ~done /\ (MultiNext \/ Eval \/ Call \/ Quiet \/ Finish))
Spec == Init /\ [][Next]_genVars
Emit == done => PrintT("@@" \o ToJson(h))
=============================================================================
