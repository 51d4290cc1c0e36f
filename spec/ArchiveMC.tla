------------------------------ MODULE ArchiveMC ------------------------------
EXTENDS Archive
SmallKeys == {<<"text", "a", "x">>, <<"text", "a", "y">>, <<"bin", "a", "x">>}
MoreKeys == SmallKeys \cup {<<"bin", "b", "x">>}
Objs == {Obj("mat", <<2, 2>>, 1), Obj("mat", <<1, 1>>, 2), Obj("list", <<2, 2>>, 1)}
Next == \E k \in Keys : Load(k) \/ \E o \in Objs : Save(k, o)
Spec == ArInit /\ [][Next]_arVars
=============================================================================
