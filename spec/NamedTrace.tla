------------------------------- MODULE NamedTrace -----------------------------
EXTENDS Named, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, conf
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ conf = [opt |-> "", args |-> <<>>]
TNew == Is("new") /\ Valid(Ev.opt, Ev.args) /\ conf' = [opt |-> Ev.opt, args |-> Ev.args]
TRun == Is("run") /\ UNCHANGED conf
        /\ \A k \in Kinds(conf.opt) \ Silent(conf.opt) : /\ {Ev.seen[k][i] : i \in DOMAIN Ev.seen[k]} = Used(conf.args, k)
                                      /\ Ev.def[k] = Default(conf.args, k)
TraceNext == TNew \/ TRun
TraceSpec == TraceInit /\ [][TraceNext]_<<conf, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
