------------------------------- MODULE KernTrace ------------------------------
EXTENDS Kern, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ KInit
Has(s, x) == \E i \in DOMAIN s : s[i] = x
O == objs[Ev.o]
TNew == Is("new") /\ objs' = <<>> /\ dat' = 1
TMake == Is("make") /\ Make(Ev.fam, Ev.dim, Ev.noise)
TSet == Is("set") /\ SetP(Ev.o, Ev.v)
TCopy == Is("copy") /\ Copy(Ev.o)
TAssign == Is("assign") /\ Assign(Ev.o, Ev.p)
TData == Is("data") /\ NewData(Ev.d)
\* the vector read back is the one set last, of the announced size; the noise is the last parameter if it is tuned
THp == Is("hp") /\ Observe /\ Ev.size = Size(O) /\ Ev.n = Size(O) /\ (Size(O) > 0 => Has(Ev.vs, O.v))
       /\ (IsKern(O) => Has(Ev.nv, IF O.noise THEN O.v ELSE 1))
\* versions for which the reference formula gives the observed value: with the noise (wn) or without (wo)
Which == IF Ev.i = Ev.j THEN Ev.wn ELSE Ev.wo
TVal == Is("val") /\ Observe
        /\ IF IsKern(O) THEN Has(Which, O.v) /\ Ev.sym
           ELSE Has(Ev.wd, <<O.v, dat>>)
TGrad == Is("grad") /\ Observe
         /\ IF IsKern(O) THEN Ev.n = Size(O) /\ Has(Which, O.v)
            ELSE Size(O) = 0 \/ (Ev.n = Size(O) /\ Has(Ev.wd, <<O.v, dat>>))
TraceNext == TNew \/ TMake \/ TSet \/ TCopy \/ TAssign \/ TData \/ THp \/ TVal \/ TGrad
TraceSpec == TraceInit /\ [][TraceNext]_<<kVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
