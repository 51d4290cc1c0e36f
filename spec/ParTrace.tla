------------------------------- MODULE ParTrace ------------------------------
EXTENDS Par, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ op = [k |-> "none"] /\ began = {} /\ ended = {} /\ returned = TRUE
TNew == Is("new") /\ returned /\ New(Ev.op)
TBegin == Is("b") /\ Begin(<<Ev.i, Ev.j>>)
TEnd == Is("n") /\ End(<<Ev.i, Ev.j>>)
TReturn == /\ Is("return") /\ Return
           /\ (op.k = "max" => MaxOk(Ev.r[1]))
           /\ (op.k = "sort" => SortOk(Ev.r))
           /\ (op.k = "foreach" => ForeachOk(Ev.r))
           /\ (op.k = "big" => BigOk(Ev.r))
           /\ (op.k = "collect" => CollectOk(Ev.r))
TraceNext == TNew \/ TBegin \/ TEnd \/ TReturn
TraceSpec == TraceInit /\ [][TraceNext]_<<parVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
