------------------------------- MODULE BoxTrace ------------------------------
(* One event per kind of point evaluated in a call (dimension, classes of the coordinates), and the returned point. *)
EXTENDS Box, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ kind = "none" /\ call = NoCall /\ engine = [dim |-> 0, bounded |-> FALSE] /\ pt = <<"in">> /\ ncalls = 0
TNew == Is("new") /\ New(Ev.kind)
TCall == Is("call") /\ Call(Ev.bounded, Ev.dim, Ev.start)
TEval == Is("eval") /\ Eval(Ev.p)
TReturn == Is("return") /\ Return(Ev.p)
TraceNext == TNew \/ TCall \/ TEval \/ TReturn
TraceSpec == TraceInit /\ [][TraceNext]_<<boxVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
