-------------------------------- MODULE NamedMC -------------------------------
(* How the components are bound: an optimiser is a chain of classes, each with a signature (the keywords it knows) and an
   arity; each class forwards its arguments to the next one and reads its own components from them. An argument is only
   found by a class whose signature has as many keywords as there are arguments before it (the keyword that a signature
   does not know shifts the others out): the binding is the specified one if every signature of the chain has every
   keyword that can be passed. Checked over every subset and order of three components.                            *)
EXTENDS Named, TLC
CONSTANT Full      \* the signatures are complete
VARIABLES args, found
Ks == {"init", "stop", "acquiopt"}
Orders == UNION {{s \in [1..n -> Ks] : Cardinality({s[i] : i \in 1..n}) = n} : n \in 0..3}
Confs == UNION {{[i \in DOMAIN o |-> <<o[i], v[i]>>] : v \in [DOMAIN o -> 1..2]} : o \in Orders}
BaseSig == IF Full THEN Ks ELSE {"init", "stop"}
\* a class looks at the first |signature| arguments
Bind(sig, a, k) == LET c == {i \in DOMAIN a : i <= Cardinality(sig) /\ a[i][1] = k} IN IF k \notin sig \/ c = {} THEN 0 ELSE a[CHOOSE i \in c : TRUE][2]
Init == args \in Confs /\ found = <<>>
Run == found = <<>> /\ found' = [k \in Ks |-> IF k = "acquiopt" THEN Bind(Ks, args, k) ELSE Bind(BaseSig, args, k)] /\ UNCHANGED args
Next == Run
Spec == Init /\ [][Next]_<<args, found>>
AllFound == found = <<>> \/ \A k \in Ks : (IF found[k] = 0 THEN {} ELSE {found[k]}) = Used(args, k)
ValidConfs == Valid("BOptimizer", args)
=============================================================================
