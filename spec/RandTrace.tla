------------------------------ MODULE RandTrace ------------------------------
(* Values are the bit patterns of the numbers (strings). What is learnt is kept from one trace to the next, and across processes. *)
EXTENDS Rand, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Names == 1..4
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ gens = [x \in Names |-> None] /\ known = [x \in {} |-> ""] /\ fresh = 0 /\ last = [t |-> "none", c |-> "in"]
TNew == Is("new") /\ gens' = [x \in Names |-> None] /\ UNCHANGED <<known, fresh, last>>
TMake == Is("make") /\ Make(Ev.g, Ev.t, Ev.a, Ev.b, Ev.seed)
TSeed == Is("seed") /\ Reseed(Ev.g, Ev.seed)
TReset == Is("reset") /\ Reset(Ev.g)
TParam == Is("param") /\ Param(Ev.g, Ev.a, Ev.b)
TDraw == Is("draw") /\ Draw(Ev.g, Ev.v, Ev.c)
UNCH == UNCHANGED randVars
TVector == Is("vector") /\ Len(Ev.c) = Ev.n /\ (Ev.bounded => \A i \in DOMAIN Ev.c : Ev.c[i] = "in") /\ Ev.fresh /\ Ev.distinct = Ev.n /\ UNCH
\* s[j]: strata of the n points in dimension j
TLhs == Is("lhs") /\ Len(Ev.s) = Ev.d /\ UNCH
        /\ (\A j \in 1..Ev.d : Len(Ev.s[j]) = Ev.n /\ {Ev.s[j][i] : i \in 1..Ev.n} = 0..(Ev.n - 1))
        \* the coordinates are drawn independently: no two equal numbers, no two dimensions in the same order (1/13! by chance)
        /\ Ev.distinct = Ev.n * Ev.d
        /\ (Ev.n >= 13 => (\A a, b \in 1..Ev.d : a < b => Ev.s[a] # Ev.s[b]))
TCover == Is("cover") /\ {Ev.s[i] : i \in DOMAIN Ev.s} = Ev.a..(Ev.a + 3) /\ (\A i \in DOMAIN Ev.n : Ev.n[i] >= 40) /\ UNCH
\* 10000 draws: mean and deviation in hundredths of the expected deviation, margins of at least eight standard errors
TStats == Is("stats") /\ Ev.mean \in -8..8 /\ Ev.dev \in 94..106 /\ (Ev.t \in {"double", "bounded"} => Ev.c = "in") /\ UNCH
TThreads == Is("threads") /\ Ev.distinct = 3 * Ev.k /\ UNCH
TraceNext == TNew \/ TMake \/ TSeed \/ TReset \/ TParam \/ TDraw \/ TVector \/ TLhs \/ TCover \/ TThreads \/ TStats
TraceSpec == TraceInit /\ [][TraceNext]_<<randVars, l>>
DistinctNow == (l > 1 /\ l <= Len(Trace) /\ Trace[l].e = "new") => DistinctSeeds
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
