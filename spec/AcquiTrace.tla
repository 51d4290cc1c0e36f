------------------------------ MODULE AcquiTrace ------------------------------
EXTENDS Acqui, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ AqInit
TNew == Is("new") /\ NewCfg(Ev.cfg, [samp |-> <<>>, mu |-> Ev.mu, sd |-> Ev.sd], [samp |-> <<>>, mu |-> Ev.cmu, sd |-> Ev.csd])
TMake == Is("make") /\ Make(Ev.kind, Ev.it) /\ Ev.dims = <<cfg.din, cfg.dout>>
TGain == Is("gain") /\ Gain(Ev.x, Ev.mu, Ev.sd)
TGainC == Is("cgain") /\ GainC(Ev.x, Ev.mu, Ev.sd)
TEval == Is("eval") /\ ~Ev.neg /\ ~Ev.grad /\ Eval(Ev.o, Ev.a, Ev.x, Ev.v)
TraceNext == TNew \/ TMake \/ TGain \/ TGainC \/ TEval
TraceSpec == TraceInit /\ [][TraceNext]_<<aqVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
