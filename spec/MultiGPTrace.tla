----------------------------- MODULE MultiGPTrace -----------------------------
EXTENDS MultiGP, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ MInit
\* what the model says about itself: data, parameters, average of the observations (st.mo), dimensions
StateOK(s) == LET m == ms'[s] IN /\ Ev.st.d = m.d /\ Ev.st.xs = m.xs /\ Ev.st.ys = m.ys /\ Ev.st.mo
                                 /\ Len(Ev.st.kv) = m.d[2] /\ (\A i \in DOMAIN m.kv : m.kv[i] \in {Ev.st.kv[i][j] : j \in DOMAIN Ev.st.kv[i]})
                                 /\ m.mv \in {Ev.st.mv[j] : j \in DOMAIN Ev.st.mv}
\* ... and the predictions of every output, when nothing is out of date
PredOK(s) == Exact(ms'[s]) => Ev.pred
TNew == Is("new") /\ ms' = [s \in Slots |-> None] /\ store' = <<None, None>> /\ nextv' = 100
TMake == Is("make") /\ New(Ev.s, Ev.d)
TCompute == Is("compute") /\ Compute(Ev.s, Ev.d, Ev.xs, Ev.xs, Ev.k) /\ StateOK(Ev.s) /\ PredOK(Ev.s)
TAdd == Is("add") /\ Add(Ev.s, Ev.d, Ev.x, Ev.x) /\ StateOK(Ev.s) /\ PredOK(Ev.s)
TSetK == Is("setk") /\ SetK(Ev.s, Ev.i, Ev.v) /\ StateOK(Ev.s)
TSetM == Is("setm") /\ SetM(Ev.s, Ev.v) /\ StateOK(Ev.s)
TRec == Is("recompute") /\ Recompute(Ev.s, Ev.om, Ev.fk) /\ StateOK(Ev.s) /\ PredOK(Ev.s)
\* tuning: no output is worse than before, and every output is as good as a single model tuned on the same data
TTune == Is("tune") /\ Tune(Ev.s, Ev.kv) /\ StateOK(Ev.s) /\ PredOK(Ev.s) /\ \A i \in DOMAIN Ev.better : Ev.better[i]
TCopy == Is("copy") /\ Copy(Ev.s, Ev.t) /\ (ms[Ev.s].d[1] > 0 => (StateOK(Ev.t) /\ PredOK(Ev.t)))
TSave == Is("save") /\ Save(Ev.s, Ev.p)
TLoad == Is("load") /\ Load(Ev.s, Ev.p, Ev.r) /\ StateOK(Ev.s) /\ PredOK(Ev.s)
TQuery == Is("query") /\ Query /\ StateOK(Ev.s) /\ PredOK(Ev.s)
TraceNext == TNew \/ TMake \/ TCompute \/ TAdd \/ TSetK \/ TSetM \/ TRec \/ TTune \/ TCopy \/ TSave \/ TLoad \/ TQuery
TraceSpec == TraceInit /\ [][TraceNext]_<<mgVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
