------------------------------ MODULE BOTrace -------------------------------
(* Acceptance of recorded executions. Focus names the property being decided: the events that belong to
   another property are then left free (see DESIGN.md).                                                 *)
EXTENDS BO, TLC, Json, IOUtils
CONSTANT Focus
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<boVars, l>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
Enforce(f) == Focus \in f
TraceInit == l = 1 /\ BOInit([iters |-> 0])
New == Is("new") /\ cfg' = Ev.cfg /\ pc' = "idle" /\ data' = <<>> /\ cur' = 0 /\ tot' = 0 /\ model' = <<>>
       /\ left' = 0 /\ afun' = "first" /\ tunes' = 0 /\ reset' = TRUE
Pairs(s) == s = data
\* what the object reports to its user when idle
Reports == /\ Ev.xs = [i \in DOMAIN data' |-> data'[i][1]] /\ Ev.ys = [i \in DOMAIN data' |-> data'[i][2]]
           /\ Ev.tot = tot' /\ Ev.cur = cur'
BestOK == data' # <<>> => \A a \in Aggs : LET b == data'[BestIdx(a, data')] IN Ev.bx[a] = b[1] /\ Ev.by[a] = b[2]
TSet == Is("set") /\ SetParams(Ev.iters, Ev.hp)
TAdd == Is("add") /\ UserAdd(Ev.x, Ev.ok, Ev.y)
        /\ Ev.raised = ~Ev.ok
        /\ Ev.xs = [i \in DOMAIN data' |-> data'[i][1]] /\ Ev.ys = [i \in DOMAIN data' |-> data'[i][2]]
TStart == Is("start") /\ Start(Ev.reset, Ev.afun)
TEval == Is("eval") /\ (EvalInit(Ev.x, Ev.ok, Ev.y) \/ EvalLoop(Ev.x, Ev.ok, Ev.y))
\* with another focus than the stopping criteria, the recorded decision is followed
StopEnforced == Enforce({"C05"}) \/ (Enforce({"C02"}) /\ cfg.crit = <<"iters">>)
ProposeAny == IF StopEnforced THEN Propose
              ELSE pc = "head" /\ pc' = "eval" /\ UNCHANGED <<cfg, data, cur, tot, model, left, afun, tunes, reset>>
ReturnAny == IF StopEnforced THEN Return
             ELSE pc = "head" /\ pc' = "idle" /\ UNCHANGED <<cfg, data, cur, tot, model, left, afun, tunes, reset>>
TPropose == Is("propose") /\ ProposeAny
            /\ (Enforce({"C01", "C02"}) => Ev.it = cur /\ Ev.mx = [i \in DOMAIN model |-> model[i][1]] /\ Ev.my = [i \in DOMAIN model |-> model[i][2]])
            \* the acquisition function is maximised with the aggregator of the run, from a new point of the box
            /\ (Enforce({"C01"}) => Ev.af = afun /\ Ev.same /\ Ev.start = "fresh")
            /\ (Enforce({"C03"}) => Ev.mx = [i \in DOMAIN model |-> model[i][1]] /\ Ev.my = [i \in DOMAIN model |-> model[i][2]])
TStats == Is("stats")
          /\ IF Enforce({"C06"}) THEN Stats
             ELSE /\ pc = "stats" /\ model' = Append(model, data[Len(data)])
                  /\ pc' = "head" /\ cur' = cur + 1 /\ tot' = tot + 1
                  /\ UNCHANGED <<cfg, data, left, afun, tunes, reset>>
          /\ Ev.xs = [i \in DOMAIN data |-> data[i][1]] /\ Ev.ys = [i \in DOMAIN data |-> data[i][2]]
          /\ Ev.cur = cur /\ Ev.tot = tot
TTune == Is("tune")
         /\ IF Enforce({"C06"}) THEN Tune /\ Ev.mx = [i \in DOMAIN model |-> model[i][1]]
            ELSE UNCHANGED boVars
TReturn == Is("return") /\ ReturnAny /\ Reports
           /\ (Enforce({"C01", "C02"}) => Ev.mx = [i \in DOMAIN model |-> model[i][1]] /\ Ev.my = [i \in DOMAIN model |-> model[i][2]])
           /\ (Enforce({"C04"}) => BestOK)
TRaise == Is("raise") /\ Raise /\ Reports /\ (Enforce({"C04"}) => BestOK) /\ Ev.sort = Ev.want
TraceNext == New \/ TSet \/ TAdd \/ TStart \/ TEval \/ TPropose \/ TStats \/ TTune \/ TReturn \/ TRaise
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
