-------------------------------- MODULE RandMC -------------------------------
(* An implementation of the specification: engine + distribution that may cache a value (gaussian: two values per engine step).
   Every history of two generators agrees with one function of (type, seed, operations since seeding).                      *)
EXTENDS Rand
CONSTANTS MaxOps, Engine(_, _)
VARIABLES impl, n   \* name -> [pos, cache]
Names == {1, 2}
Types == {"int", "gauss"}
Init == gens = [x \in Names |-> None] /\ known = [x \in {} |-> 0] /\ fresh = 0 /\ last = [t |-> "none", c |-> "in"]
        /\ impl = [x \in Names |-> [pos |-> 0, cache |-> -1]] /\ n = 0
Zero == [pos |-> 0, cache |-> -1]
Count == n < MaxOps /\ n' = n + 1
\* what the code computes
ImplVal(x) == LET g == gens[x] i == impl[x] IN
              IF g.t = "gauss" /\ i.cache >= 0 THEN <<i.cache, "second">> ELSE <<Engine(g.seed, i.pos), "first">>
ImplStep(x) == LET g == gens[x] i == impl[x] IN
               IF g.t = "gauss" THEN (IF i.cache >= 0 THEN [i EXCEPT !.cache = -1] ELSE [pos |-> i.pos + 1, cache |-> Engine(g.seed, i.pos)])
               ELSE [i EXCEPT !.pos = @ + 1]
Next == Count /\ \E x \in Names :
          \/ \E t \in Types, s \in {0, 1} : gens[x].t = "none" /\ Make(x, t, 0, 3, s) /\ impl' = [impl EXCEPT ![x] = Zero]
          \/ \E s \in {0, 1} : Reseed(x, s) /\ impl' = [impl EXCEPT ![x] = Zero]       \* clears the cache as well
          \/ Reset(x) /\ impl' = [impl EXCEPT ![x].cache = -1]
          \/ gens[x].t # "none" /\ Draw(x, ImplVal(x), "in") /\ impl' = [impl EXCEPT ![x] = ImplStep(x)]
Spec == Init /\ [][Next]_<<randVars, impl, n>>
\* the value the implementation would give never contradicts what is known
Agrees == \A x \in Names : gens[x].t # "none" => LET k == Key(gens[x]) IN (k \in DOMAIN known => known[k] = ImplVal(x))
E3(s, p) == s * 10 + p
=============================================================================
