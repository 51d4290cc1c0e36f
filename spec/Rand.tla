--------------------------------- MODULE Rand --------------------------------
(* tools/random_generator.hpp. A generator is a deterministic machine: the value of a draw is a function of the type, the seed and the
   operations done since seeding ("hist": draws, resets of the distribution, changes of the bounds). The function itself is not specified:
   it is learnt from the recorded draws (known), which must never contradict it. Unseeded generators have a fresh identity as seed.      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES gens,   \* name -> [t, a, b, seed, hist] or [t |-> "none"]
          known,  \* learnt: <<t, seed, hist>> -> value
          fresh,  \* number of anonymous seeds so far
          last    \* last draw: [t, a, b, in] for the range invariant
randVars == <<gens, known, fresh, last>>
None == [t |-> "none"]
Anon(k) == -1 - k
\* draws are compressed: n consecutive draws are one entry
App(h, d) == Append(h, d)
\* a uniform real draw depends on the current bounds and on its position only; the other distributions may keep values between draws
Key(g) == IF g.t = "double" THEN <<g.t, g.seed, <<g.a, g.b, Len(g.hist)>>>> ELSE <<g.t, g.seed, g.hist>>
Created(t, a, b, s) == [t |-> t, a |-> a, b |-> b, seed |-> s, hist |-> IF t = "double" THEN <<>> ELSE <<<<"p", a, b>>>>]
Mark(g, e) == IF g.t = "double" THEN g.hist ELSE App(g.hist, e)
Make(n, t, a, b, s) == /\ gens' = [gens EXCEPT ![n] = Created(t, a, b, IF s >= 0 THEN s ELSE Anon(fresh))]
                       /\ fresh' = IF s >= 0 THEN fresh ELSE fresh + 1
                       /\ UNCHANGED <<known, last>>
\* reseeding gives the state of a new generator with the current bounds
Reseed(n, s) == LET g == gens[n] IN g.t # "none" /\ Make(n, g.t, g.a, g.b, s)
Reset(n) == LET g == gens[n] IN g.t # "none" /\ gens' = [gens EXCEPT ![n].hist = Mark(g, <<"r">>)] /\ UNCHANGED <<known, fresh, last>>
\* setting the bounds they already have, before any draw, changes nothing
Param(n, a, b) == LET g == gens[n] IN
                  /\ g.t # "none"
                  /\ gens' = [gens EXCEPT ![n].a = a, ![n].b = b, ![n].hist = Mark(g, <<"p", a, b>>)] /\ UNCHANGED <<known, fresh, last>>
InRange(g, c) == CASE g.t = "double" -> c \in {"in"} [] g.t = "int" -> c = "in" [] OTHER -> c \in {"in", "out"}
Draw(n, v, c) == LET g == gens[n] k == Key(g) IN
                 /\ g.t # "none"
                 /\ (k \in DOMAIN known => known[k] = v)
                 /\ known' = IF k \in DOMAIN known THEN known ELSE [x \in DOMAIN known \cup {k} |-> IF x = k THEN v ELSE known[x]]
                 /\ gens' = [gens EXCEPT ![n].hist = App(@, <<"d">>)]
                 /\ InRange(g, c)
                 /\ last' = [t |-> g.t, c |-> c] /\ UNCHANGED fresh
------------------------------------------------------------------------------
Deterministic == TRUE   \* by construction of known: contradictions disable Draw
\* real draws are all different: other seeds, other positions (for gaussian ones, of generators whose distribution was left alone)
Pure(k) == k[1] = "double" \/ (k[1] = "gauss" /\ \A i \in 2..Len(k[3]) : k[3][i] = <<"d">>)
DistinctSeeds == LET P == {k \in DOMAIN known : Pure(k)} IN Cardinality({known[k] : k \in P}) = Cardinality(P)
=============================================================================
