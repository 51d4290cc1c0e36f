----------------------------- MODULE EngineTrace -----------------------------
(* What the wrappers of external engines (opt/nlopt_*.hpp) give back, over the same histories of calls as Box:
   n evaluations were made, "worse" than the start, "best" possible point (of concave quadratic objectives).   *)
EXTENDS Box, Integers, TLC, Json, IOUtils
CONSTANT Iterations
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, obj
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
Newton == {"lbfgs", "slsqp", "tnewton", "var2"}
Local == Newton \cup {"mma", "cobyla", "bobyqa", "neldermead", "sbplx"}
Exact == Local \cup {"direct", "esch", "isres"}      \* engines that respect the budget of evaluations exactly
Quadratic == {0, 5, 6}
Linear == {1, 2}
NeverWorse(worse) == kind \in Local => ~worse
\* a Newton method finds the maximum of a concave quadratic, wherever the start; with bounds, that of a linear function too
Finds(best) == \/ best
               \/ ~((kind \in Newton /\ obj \in Quadratic) \/ (kind \in Newton \cup {"mma", "bobyqa"} /\ call.bounded /\ obj \in Quadratic \cup Linear))
Budget(n) == (kind \in Exact => n <= Iterations) /\ (kind \in Local => n >= 1)
TraceInit == l = 1 /\ obj = 0 /\ kind = "none" /\ call = NoCall /\ engine = [dim |-> 0, bounded |-> FALSE] /\ pt = <<"in">> /\ ncalls = 0
TNew == Is("new") /\ New(Ev.kind) /\ UNCHANGED obj
TCall == Is("call") /\ Call(Ev.bounded, Ev.dim, Ev.start) /\ obj' = Ev.obj
TEval == Is("eval") /\ call.on /\ UNCHANGED <<boxVars, obj>>
TReturn == Is("return") /\ NeverWorse(Ev.worse) /\ Finds(Ev.best) /\ Budget(Ev.n) /\ Return(Ev.p) /\ UNCHANGED obj
TraceNext == TNew \/ TCall \/ TEval \/ TReturn
TraceSpec == TraceInit /\ [][TraceNext]_<<boxVars, l, obj>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
