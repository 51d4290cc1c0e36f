----------------------------- MODULE TreeTrace ------------------------------
(* Acceptance of recorded runs of the tree-based optimiser. A second run ("twin") gets the aggregated values as its only output: it has to
   evaluate the same points in the same order.                                                                                            *)
EXTENDS Tree, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, twin, log, ref, pos
tvars == <<treeVars, l, twin, log, ref, pos>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TInit == l = 1 /\ dim = 1 /\ iters = 0 /\ phase = "idle" /\ seen = {} /\ now = {} /\ hist = <<>> /\ cur = 0 /\ tot = 0
         /\ twin = FALSE /\ log = <<>> /\ ref = <<>> /\ pos = 0
TNew == Is("new") /\ New(Ev.dim) /\ twin' = FALSE /\ log' = <<>> /\ ref' = <<>> /\ pos' = 0
\* the twin starts: what was evaluated so far is what it has to evaluate
TTwin == Is("twin") /\ phase \in {"idle", "given up"} /\ New(dim) /\ twin' = TRUE /\ ref' = log /\ log' = <<>> /\ pos' = 0
Keep == UNCHANGED <<twin, ref, log, pos>>
TStart == Is("start") /\ Start(Ev.reset, Ev.iters) /\ Keep
TEval == Is("eval") /\ Eval(Ev.x) /\ log' = Append(log, Ev.x) /\ pos' = pos + 1 /\ UNCHANGED <<twin, ref>>
         /\ (twin => pos' <= Len(ref) /\ ref[pos'] = Ev.x)
TStats == Is("stats") /\ Stats /\ Ev.cur = cur /\ Ev.tot = tot /\ Ev.n = Len(hist) /\ Ev.last = hist[Len(hist)] /\ Ev.paired /\ Keep
TReturn == Is("return") /\ Return /\ Ev.cur = cur /\ Ev.tot = tot /\ Ev.xs = hist /\ Ev.paired /\ Ev.best /\ Keep
TEnd == Is("end") /\ phase = "idle" /\ (twin => pos = Len(ref)) /\ UNCHANGED treeVars /\ Keep
TDeep == Is("deep") /\ phase \in {"root", "run"} /\ phase' = "given up" /\ UNCHANGED <<dim, iters, seen, now, hist, cur, tot>> /\ Keep
TNext == TDeep \/ TNew \/ TTwin \/ TStart \/ TEval \/ TStats \/ TReturn \/ TEnd
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
