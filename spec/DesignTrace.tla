----------------------------- MODULE DesignTrace -----------------------------
EXTENDS Design, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ cfg = [k |-> "none"] /\ pts = <<>> /\ rec = <<>> /\ st = "done"
TNew == Is("new") /\ New(Ev.cfg)
TEval == Is("eval") /\ Eval(Ev.p)
\* rec: for each recorded pair, the number of the evaluation it comes from (0: none)
TEnd == Is("end") /\ End /\ Ev.rec = rec /\ Drawn(Ev.distinct, Ev.tot)
TAgain == Is("again") /\ Again
TraceNext == TNew \/ TEval \/ TEnd \/ TAgain
TraceSpec == TraceInit /\ [][TraceNext]_<<desVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
