------------------------------- MODULE GPTrace -------------------------------
(* Acceptance of recorded executions of the real GP. *)
EXTENDS GP, TLC, Json, IOUtils
CONSTANT Focus
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, vr
tvars == <<gpVars, l, vr>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1 /\ UNCHANGED vr
Foc(f) == Focus \in f
\* the visible state of a model
Shows(st, m) == /\ st.dims = m.dims /\ st.xs = [i \in DOMAIN m.data |-> m.data[i][1]] /\ st.ys = [i \in DOMAIN m.data |-> m.data[i][2]]
                /\ st.kv = m.kv /\ st.mv = m.mv /\ st.mo
Ok(s) == Shows(Ev.st, gp'[s])
TraceInit == GPInit /\ l = 1 /\ vr = 0
New == /\ l <= Len(Trace) /\ Ev.e = "new" /\ l' = l + 1 /\ vr' = Ev.variant
       /\ gp' = [s \in Slots |-> Fresh0(<<0, 0>>)] /\ disk' = [p \in Places |-> None]
HasM == vr \in {0, 3, 5}
Zip(a, b) == [i \in DOMAIN a |-> <<a[i], b[i]>>]
D == <<Ev.din, Ev.dout>>
TConstruct == Is("construct") /\ Construct(Ev.s, D) /\ Ok(Ev.s)
TCompute == Is("compute") /\ Compute(Ev.s, Zip(Ev.xi, Ev.yi), D, Ev.ck) /\ Ok(Ev.s)
TAdd == Is("add") /\ Add(Ev.s, <<Ev.x, Ev.y>>, D) /\ Ok(Ev.s)
TSetK == Is("setk") /\ SetK(Ev.s, Ev.v) /\ Ok(Ev.s)
TSetM == Is("setm") /\ SetM(Ev.s, Ev.v) /\ Ok(Ev.s)
TRec == Is("recompute") /\ Recompute(Ev.s, Ev.om, Ev.fk) /\ Ok(Ev.s)
TQuery == /\ Is("query") /\ Query(Ev.s) /\ Ok(Ev.s) /\ Ev.same /\ Ev.q
          /\ (Exact(gp[Ev.s]) => (Ev.mu /\ Ev.sg /\ Ev.rs))
Derived(n, A(_)) == Is(n) /\ A(Ev.s) /\ Ok(Ev.s) /\ (Exact(gp[Ev.s]) => Ev.ok)
TDer == \/ Derived("lik", Lik) \/ Derived("loo", Loo) \/ Derived("gk", Grad) \/ Derived("gm", Grad) \/ Derived("gloo", Grad)
        \/ (Is("inv") /\ Inv(Ev.s) /\ Ok(Ev.s))
TPut == (Is("putlik") /\ PutLik(Ev.s, Ev.v) /\ Ok(Ev.s)) \/ (Is("putloo") /\ PutLoo(Ev.s, Ev.v) /\ Ok(Ev.s))
TGet == (Is("getlik") \/ Is("getloo")) /\ UNCHANGED gpVars /\ Ev.ok /\ Ok(Ev.s)
TCopy == Is("copy") /\ Copy(Ev.s, Ev.t) /\ Ok(Ev.s) /\ Shows(Ev.st2, gp'[Ev.t])
\* the versions reached by the tuner are new names (or known ones), but only of the parameters it tunes
TTune == /\ Is("tune")
         /\ IF vr = 2 THEN UNCHANGED gpVars
            ELSE Tune(Ev.s, vr \in {0, 1, 4, 5}, vr \in {0, 3, 5}, Ev.st.kv, Ev.st.mv, IF vr = 1 THEN "loo" ELSE "lik")
         /\ Ok(Ev.s) /\ Ev.st.kv > 0 /\ Ev.st.mv > 0
         /\ (Foc({"C11"}) => Ev.ge /\ Ev.stored)
TSave == Is("save") /\ Save(Ev.s, Ev.p) /\ Ok(Ev.s)
TLoad == Is("load") /\ Load(Ev.s, Ev.p, Ev.rec) /\ Ok(Ev.s)
TraceNext == New \/ TConstruct \/ TCompute \/ TAdd \/ TSetK \/ TSetM \/ TRec \/ TQuery \/ TDer \/ TPut \/ TGet \/ TCopy \/ TTune \/ TSave \/ TLoad
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
