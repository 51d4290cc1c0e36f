--------------------------------- MODULE Kern ---------------------------------
(* Kernel and mean functions: objects that hold a parameter vector (known by the number of the version that was set last;
   version 1 is the configured default) and whose values, noise and gradients are functions of that version only (and of
   the data, for the data mean). Objects are copied by value.                                                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES objs,   \* sequence of [fam, dim, noise, v]
          dat     \* data set seen by the mean functions
kVars == <<objs, dat>>
KernFams == {"exp", "m32", "m52", "se0", "se1", "se2", "se3"}
MeanFams == {"null", "const", "data", "ard-null", "ard-const", "ard-data", "ard-user"}
\* announced number of parameters of a kernel of dimension d
KSize(f, d, noise) == (IF noise THEN 1 ELSE 0) + (CASE f \in {"exp", "m32", "m52"} -> 2 [] f = "se0" -> d + 1 [] f = "se1" -> (2 * d) + 1 [] f = "se2" -> (3 * d) + 1 [] f = "se3" -> (4 * d) + 1)
MSize(f, d) == CASE f = "null" -> 0 [] f = "const" -> 1 [] f = "data" -> 0
                 [] f \in {"ard-null", "ard-data"} -> d * (d + 1) [] f = "ard-const" -> (d * (d + 1)) + 1 [] f = "ard-user" -> (d * (d + 1)) + d
IsKern(o) == o.fam \in KernFams
Size(o) == IF IsKern(o) THEN KSize(o.fam, o.dim, o.noise) ELSE MSize(o.fam, o.dim)
KInit == objs = <<>> /\ dat = 1
Make(fam, dim, noise) == objs' = Append(objs, [fam |-> fam, dim |-> dim, noise |-> noise, v |-> 1]) /\ UNCHANGED dat
SetP(i, v) == Size(objs[i]) > 0 /\ objs' = [objs EXCEPT ![i].v = v] /\ UNCHANGED dat
\* copy of an object: a new one, or assigned to an existing one of the same type
Copy(i) == objs' = Append(objs, objs[i]) /\ UNCHANGED dat
Assign(i, j) == i # j /\ objs[i].fam = objs[j].fam /\ objs[i].noise = objs[j].noise /\ objs' = [objs EXCEPT ![j] = objs[i]] /\ UNCHANGED dat
NewData(d) == dat' = d /\ UNCHANGED objs
\* an observation never changes anything
Observe == UNCHANGED kVars
=============================================================================
