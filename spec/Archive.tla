------------------------------- MODULE Archive -------------------------------
(* Archives (serialize/): a store of objects under (format, directory, name). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys          \* set of <<format, directory, name>>
VARIABLES store,        \* key -> value or None
          got           \* last value loaded
arVars == <<store, got>>
None == <<>>
AllKeys == {"text", "bin"} \X {"a", "a/b", "ab"} \X {"x", "xy", "x.y", "a_longer_name-01.of.an_object"}
\* an object: kind ("mat", "vec", "list"), sizes (list: length of each vector), identifier of the numbers
Obj(kind, sizes, id) == [kind |-> kind, sizes |-> sizes, id |-> id]
ArInit == store = [k \in Keys |-> None] /\ got = None
Save(k, o) == store' = [store EXCEPT ![k] = o] /\ got' = None
Load(k) == store[k] # None /\ got' = store[k] /\ UNCHANGED store
------------------------------------------------------------------------------
\* one save changes one object; a load changes nothing
Isolation == [][\A k, m \in Keys : (k # m /\ store'[k] # store[k]) => store'[m] = store[m]]_arVars
LoadPure == [][got' # None => store' = store]_arVars
LastWins == got # None => \E k \in Keys : store[k] = got
=============================================================================
