-------------------------------- MODULE KernMC --------------------------------
(* Design: an object that keeps the parameter vector and quantities derived from it (amplitude, length scales, noise)
   agrees with the version it announces as long as every path that changes the one changes the others; copies are
   independent.                                                                                                     *)
EXTENDS Kern
CONSTANTS MaxObj, Versions
VARIABLES derived, noiseOf  \* version from which each object's derived quantities / noise were computed
v == <<kVars, derived, noiseOf>>
Init == KInit /\ derived = <<>> /\ noiseOf = <<>>
MMake == Len(objs) < MaxObj /\ (\E f \in {"m52", "se1", "const"}, n \in BOOLEAN : Make(f, 2, n)) /\ derived' = Append(derived, 1) /\ noiseOf' = Append(noiseOf, 1)
MSet == \E i \in DOMAIN objs, w \in Versions :
          /\ SetP(i, w) /\ derived' = [derived EXCEPT ![i] = w]
          /\ noiseOf' = IF objs[i].noise THEN [noiseOf EXCEPT ![i] = w] ELSE noiseOf
MCopy == Len(objs) < MaxObj /\ \E i \in DOMAIN objs : Copy(i) /\ derived' = Append(derived, derived[i]) /\ noiseOf' = Append(noiseOf, noiseOf[i])
MAssign == \E i, j \in DOMAIN objs : Assign(i, j) /\ derived' = [derived EXCEPT ![j] = derived[i]] /\ noiseOf' = [noiseOf EXCEPT ![j] = noiseOf[i]]
Next == MMake \/ MSet \/ MCopy \/ MAssign
Spec == Init /\ [][Next]_v
Agree == \A i \in DOMAIN objs : derived[i] = objs[i].v
NoiseOK == \A i \in DOMAIN objs : noiseOf[i] = IF objs[i].noise THEN objs[i].v ELSE 1
\* setting one object changes that object only
Independent == [][\A i \in DOMAIN objs : (Len(objs') = Len(objs)) => Cardinality({j \in DOMAIN objs : objs'[j] # objs[j]}) <= 1]_v
=============================================================================
