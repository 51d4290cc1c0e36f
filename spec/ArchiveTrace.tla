----------------------------- MODULE ArchiveTrace ----------------------------
EXTENDS Archive, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
K == <<Ev.fmt, Ev.dir, Ev.name>>
TraceInit == ArInit /\ l = 1
New == Is("new") /\ store' = [k \in Keys |-> None] /\ got' = None
TSave == Is("save") /\ Save(K, Obj(Ev.kind, Ev.sizes, Ev.id))
TLoad == Is("load") /\ Load(K) /\ got' = Obj(Ev.kind, Ev.sizes, Ev.id)
End == Is("end") /\ UNCHANGED arVars
TraceNext == New \/ TSave \/ TLoad \/ End
TraceSpec == TraceInit /\ [][TraceNext]_<<arVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
