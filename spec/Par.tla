--------------------------------- MODULE Par ---------------------------------
(* tools/parallel.hpp: bodies of one parallel operation begin and end in any interleaving, the operation returns once, after all.
   op = [k, lo, n, keys, init, desc, inner]:
     loop     bodies lo..lo+n-1                 foreach  one body per element 1..n
     nested   bodies lo..lo+n-1, each with inner bodies <<i, j>>          replicate  n indistinct bodies
     big      a loop of many bodies, recorded as totals: r = <<bodies run exactly once, others>>
     max      bodies 0..n-1 with values keys    sort     no bodies         collect  bodies that append to a shared vector      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES op, began, ended, returned
parVars == <<op, began, ended, returned>>
Range(s) == {s[i] : i \in DOMAIN s}
Outer(o) == CASE o.k \in {"loop", "nested"} -> o.lo..(o.lo + o.n - 1)
              [] o.k \in {"foreach", "replicate"} -> 1..o.n
              [] o.k \in {"max", "collect"} -> 0..(o.n - 1)
              [] OTHER -> {}
Bodies(o) == {<<i, 0>> : i \in Outer(o)} \cup (IF o.k = "nested" THEN {<<i, j>> : i \in Outer(o), j \in 1..o.inner} ELSE {})
Better(o, a, b) == IF o.desc THEN a < b ELSE a > b
New(o) == op' = o /\ began' = {} /\ ended' = {} /\ returned' = FALSE
Begin(b) == /\ ~returned /\ b \in Bodies(op) /\ b \notin began /\ began' = began \cup {b}
            /\ (b[2] # 0 => (<<b[1], 0>> \in began /\ <<b[1], 0>> \notin ended))
            /\ UNCHANGED <<op, ended, returned>>
End(b) == /\ ~returned /\ b \in began /\ b \notin ended /\ ended' = ended \cup {b}
          /\ ((b[2] = 0 /\ op.k = "nested") => \A j \in 1..op.inner : <<b[1], j>> \in ended)
          /\ UNCHANGED <<op, began, returned>>
AllDone == ended = Bodies(op)
Return == ~returned /\ AllDone /\ returned' = TRUE /\ UNCHANGED <<op, began, ended>>
\* admissible results
MaxOk(i) == IF \E j \in 0..(op.n - 1) : Better(op, op.keys[j + 1], op.init)
            THEN i \in 0..(op.n - 1) /\ \A j \in 0..(op.n - 1) : ~Better(op, op.keys[j + 1], op.keys[i + 1])
            ELSE i = -1
SortOk(s) == /\ Len(s) = op.n /\ Range(s) = 1..op.n
             /\ \A a \in 1..(op.n - 1) : ~Better(op, op.keys[s[a + 1]], op.keys[s[a]])
\* the body is given the element itself: its changes remain
ForeachOk(s) == s = [i \in 1..op.n |-> 1000 + i]
BigOk(s) == s = <<op.n, 0>>
CollectOk(s) == Len(s) = op.n /\ Range(s) = 0..(op.n - 1)
=============================================================================
