------------------------------- MODULE MOTrace -------------------------------
(* Focus "C25": Pareto sets; "C26": volumes. Recorded volumes are integers (-1: not an integer). *)
EXTENDS MO, TLC, Json, IOUtils
CONSTANT Focus
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ dim = 0 /\ pts = <<>>
TNew == Is("new") /\ New(Ev.d)
TAdd == Is("add") /\ Add(Ev.v)
UNCH == UNCHANGED moVars
TPareto == Is("pareto") /\ (Focus = "C25" => ParetoOk(Ev.q)) /\ UNCH
TFilter == Is("filter") /\ (Focus = "C26" => FilterOk(Ev.q) /\ Ev.perm) /\ UNCH
THv == Is("hv") /\ (Focus = "C26" => Ev.v = Hv(Range(pts))) /\ UNCH
TBox == Is("hvbox") /\ (Focus = "C26" => Ev.v = HvBox(Range(pts), Ev.hi)) /\ UNCH
TGain == Is("gain") /\ (Focus = "C26" => Ev.v = Gain(Range(pts), Ev.cand)) /\ UNCH
TraceNext == TNew \/ TAdd \/ TPareto \/ TFilter \/ THv \/ TBox \/ TGain
TraceSpec == TraceInit /\ [][TraceNext]_<<moVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
