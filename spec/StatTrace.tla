----------------------------- MODULE StatTrace ------------------------------
(* Acceptance of recorded runs with statistics: after every call of the statistics, the lines added to each file. *)
EXTENDS Stat, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<boVars, statVars, l>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ BOInit([iters |-> 0]) /\ StatInit
TNew == Is("new") /\ cfg' = Ev.cfg /\ pc' = "idle" /\ data' = <<>> /\ cur' = 0 /\ tot' = 0 /\ model' = <<>>
       /\ left' = 0 /\ afun' = "first" /\ tunes' = 0 /\ reset' = TRUE
       /\ files' = [f \in (IF Ev.cfg.kind = "multi" THEN {"samples", "hypervolume"} ELSE Base) |-> <<>>]
       /\ grids' = {} /\ fronts' = {} /\ seg' = 0 /\ hidden' = {} /\ mt' = 0
\* what lies in the result directory: all the files once the statistics were called, nothing before, never anything if they are disabled
Num(s, i) == s \o ToString(i)
Listing == IF ~cfg.on \/ Len(files'["samples"]) = 0 THEN {}
           ELSE (DOMAIN files') \cup {Num("gp_", i) : i \in grids'} \cup {Num("pareto_front_", i) : i \in fronts'}
Lens == \A f \in DOMAIN files' : Ev.n[f] = Len(files'[f])
Dir == {Ev.dir[i] : i \in DOMAIN Ev.dir} = Listing /\ Ev.top = (IF cfg.on THEN 1 ELSE 0) /\ Lens
TSet == Is("set") /\ StatKeep(SetParams(Ev.iters, Ev.hp))
TAdd == Is("add") /\ StatAdd(Ev.x, Ev.ok, Ev.y) /\ Dir
TStart == Is("start") /\ StatStart(Ev.reset, Ev.afun)
TEval == Is("eval") /\ StatKeep(EvalInit(Ev.x, Ev.ok, Ev.y) \/ EvalLoop(Ev.x, Ev.ok, Ev.y)) /\ Lens
TPropose == Is("propose") /\ StatKeep(Propose) /\ Lens
Mem(x, s) == \E i \in DOMAIN s : s[i] = x
DataFiles == Evaluated \cup {"best_samples", "best_observations", "best_aggregated_observations"}
TStats == /\ Is("stats") /\ StatStats
          /\ Ev.cur = cur /\ Ev.tot = tot
          /\ IF ~cfg.on THEN Ev.con = <<>>
             ELSE /\ Dir
                  /\ Ev.con = Console
                  /\ \A f \in (IF cfg.kind = "gp" THEN DataFiles ELSE DOMAIN files) : Ev.new[f] = New(f)
                  /\ cfg.kind = "gp" => /\ \A f \in (PerIteration \ DataFiles) : Ev.new[f] = << <<tot>> >> /\ Mem(N, Ev.ver[f])
                                        /\ Mem(N, Ev.ver.gp)
                  /\ cfg.kind \in {"fwd", "rev"} => /\ {Ev.grid[i] : i \in DOMAIN Ev.grid} = Grid
                                                    /\ Len(Ev.grid) = Cardinality(Grid)
                  /\ cfg.kind = "gp" => /\ {Ev.grid[i] : i \in DOMAIN Ev.grid} = GridPts
                                        /\ Len(Ev.grid) = Cardinality(GridPts)
                  /\ cfg.kind = "multi" => FrontOk(Ev.front)
TTune == Is("tune") /\ StatTune
TReturn == Is("return") /\ StatKeep(Return) /\ Dir
TRaise == Is("raise") /\ StatKeep(Raise) /\ Dir
TraceNext == TNew \/ TSet \/ TAdd \/ TStart \/ TEval \/ TPropose \/ TStats \/ TTune \/ TReturn \/ TRaise
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
