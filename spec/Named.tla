--------------------------------- MODULE Named --------------------------------
(* Optimisers configured with named components. A configuration is the optimiser and the sequence of the components that
   are passed, each one a kind and a variant; variants 3 and 4 of statistics and stopping criteria are lists, of the first
   component and of both. A run uses exactly what was passed, and the documented default for everything else.      *)
EXTENDS Integers, Sequences, FiniteSets
Opts == {"BOptimizer", "CBOptimizer", "Ehvi", "Parego", "HPOpt", "IMGPO"}
Kinds(o) == CASE o = "BOptimizer" -> {"init", "model", "acqui", "stats", "stop", "acquiopt"}
              [] o = "CBOptimizer" -> {"init", "model", "cmodel", "acqui", "stats", "stop", "acquiopt"}
              [] o = "Ehvi" -> {"init", "model", "acqui", "stats", "stop", "acquiopt"}
              [] o = "Parego" -> {"init", "pmodel", "acqui", "stats", "stop", "acquiopt"}
              [] o = "HPOpt" -> {"init", "stats", "stop", "acquiopt"}
              [] OTHER -> {"init", "model", "acqui", "stats", "stop"}
\* can be passed, but the hypervolume improvement is always used
Silent(o) == IF o = "Ehvi" THEN {"acqui"} ELSE {}
Arity(o) == CASE o = "BOptimizer" -> 6 [] o = "CBOptimizer" -> 7 [] o = "Ehvi" -> 6 [] o = "HPOpt" -> 4 [] OTHER -> 5
Variants(k) == IF k \in {"stats", "stop"} THEN 1..4 ELSE 1..2
Passed(args) == {args[i][1] : i \in DOMAIN args}
\* a custom model needs its own acquisition function; the default one does not know constraints, nor how IMGPO calls it
Valid(o, args) == /\ Len(args) <= Arity(o) /\ Passed(args) \subseteq Kinds(o) /\ Cardinality(Passed(args)) = Len(args)
                  /\ \A i \in DOMAIN args : args[i][2] \in Variants(args[i][1])
                  /\ ("acqui" \in Kinds(o) \ Silent(o) /\ Passed(args) \cap {"model", "cmodel", "pmodel"} # {}) => "acqui" \in Passed(args)
                  /\ (o \in {"CBOptimizer", "IMGPO"} => "acqui" \in Passed(args))
                  \* the default statistics need a best observation, which multi-objective optimisers do not have
                  /\ (o = "Ehvi" => "stats" \in Passed(args))
Arg(args, k) == args[CHOOSE i \in DOMAIN args : args[i][1] = k][2]
\* the components seen at work
Used(args, k) == IF k \notin Passed(args) THEN {} ELSE CASE Arg(args, k) = 3 -> {1} [] Arg(args, k) = 4 -> {1, 2} [] OTHER -> {Arg(args, k)}
Default(args, k) == k \notin Passed(args)
=============================================================================
