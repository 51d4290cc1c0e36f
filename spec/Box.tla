--------------------------------- MODULE Box ---------------------------------
(* Inner optimisers and the unit box (opt/*.hpp). An optimiser object lives through several calls, each with its own mode (bounded
   or not), dimension and starting point. Objects that wrap an engine (NLopt) keep the engine's settings from one call to the next:
   "engine" is what the engine was last told. Coordinates are abstracted to classes.                                              *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES kind,    \* which optimiser
          call,    \* the call in progress: [on, bounded, dim, start]
          engine,  \* settings of the engine: [dim, bounded] (dim 0: not initialised)
          pt,      \* last point given to the objective or returned: sequence of classes
          ncalls
boxVars == <<kind, call, engine, pt, ncalls>>
Classes == {"in", "low", "high", "nan"}
In(p) == \A k \in DOMAIN p : p[k] = "in"
Clamp(p) == [k \in DOMAIN p |-> IF p[k] = "nan" THEN "nan" ELSE "in"]
OnlyBounded(k) == k \in {"grid", "grid7", "random"}
NoCall == [on |-> FALSE, bounded |-> FALSE, dim |-> 1, start |-> <<"in">>]

New(k) == kind' = k /\ call' = NoCall /\ engine' = [dim |-> 0, bounded |-> FALSE] /\ pt' = <<"in">> /\ ncalls' = 0
\* the wrapper gives the engine its dimension and bounds at every call, and a start within the bounds
Call(b, d, s) == /\ ~call.on /\ (OnlyBounded(kind) => b) /\ Len(s) = d
                 /\ call' = [on |-> TRUE, bounded |-> b, dim |-> d, start |-> s]
                 /\ engine' = [dim |-> d, bounded |-> b]
                 /\ pt' = IF b THEN Clamp(s) ELSE s
                 /\ ncalls' = ncalls + 1 /\ UNCHANGED kind
\* an engine stays within the bounds it was given
Engine(p) == Len(p) = engine.dim /\ (engine.bounded => In(p))
Eval(p) == call.on /\ Engine(p) /\ pt' = p /\ UNCHANGED <<kind, call, engine, ncalls>>
Return(p) == call.on /\ Engine(p) /\ pt' = p /\ call' = [call EXCEPT !.on = FALSE] /\ UNCHANGED <<kind, engine, ncalls>>
------------------------------------------------------------------------------
InBox == (call.on /\ call.bounded) => In(pt)
Dims == call.on => Len(pt) = call.dim
=============================================================================
