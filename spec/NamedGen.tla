-------------------------------- MODULE NamedGen ------------------------------
(* Random configurations: a permutation of a random subset of the kinds. *)
EXTENDS Named, TLC, Json, SequencesExt
VARIABLES o, args, left, done
R(S) == {RandomElement(S)}
Init == o \in Opts /\ args = <<>> /\ left = -1 /\ done = FALSE
\* how many components, favouring many
Size == left = -1 /\ (\E n \in R(0..(2 * Arity(o))) : left' = IF n > Arity(o) THEN Arity(o) - (n % 2) ELSE n) /\ UNCHANGED <<o, args, done>>
Take == left > 0 /\ Kinds(o) \ Passed(args) # {} /\ (\E k \in R(Kinds(o) \ Passed(args)) : \E v \in R(Variants(k)) : args' = Append(args, <<k, v>>))
        /\ left' = left - 1 /\ UNCHANGED <<o, done>>
Finish == left >= 0 /\ (left = 0 \/ Kinds(o) \ Passed(args) = {}) /\ Valid(o, args) /\ ~done /\ done' = TRUE /\ UNCHANGED <<o, args, left>>
Next == Size \/ Take \/ Finish
Spec == Init /\ [][Next]_<<o, args, left, done>>
Emit == done => PrintT("@@" \o ToJson([opt |-> o, args |-> args]))
=============================================================================
