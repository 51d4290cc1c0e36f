------------------------------- MODULE Design --------------------------------
(* Initial designs (init/*.hpp): which points are evaluated before the first iteration. A point is a tuple of codes:
   grid index per dimension (grid, rgrid), stratum per dimension (lhs), 0 for a coordinate inside the box and 1 outside (random).
   cfg = [k, dim, n (samples), bins, bounded]                                                                               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, pts, rec, st   \* points evaluated in this design; evaluations recorded (numbers); "design" or "done"
desVars == <<cfg, pts, rec, st>>
Grid(c) == [1..c.dim -> 0..c.bins]
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Size(c) == CASE c.k = "none" -> 0 [] c.k = "grid" -> Pow(c.bins + 1, c.dim) [] OTHER -> c.n
\* may the next point be p?
Admissible(c, s, p) ==
  /\ Len(s) < Size(c) /\ Len(p) = c.dim
  /\ CASE c.k = "grid" -> p \in Grid(c) /\ \A i \in DOMAIN s : s[i] # p
       [] c.k = "rgrid" -> p \in Grid(c)
       [] c.k = "random" -> c.bounded => \A j \in 1..c.dim : p[j] = 0
       [] c.k = "lhs" -> \A j \in 1..c.dim : p[j] \in 0..(c.n - 1) /\ \A i \in DOMAIN s : s[i][j] # p[j]
       [] OTHER -> FALSE
New(c) == cfg' = c /\ pts' = <<>> /\ rec' = <<>> /\ st' = "design"
Eval(p) == st = "design" /\ Admissible(cfg, pts, p) /\ pts' = Append(pts, p) /\ rec' = Append(rec, Len(rec) + 1) /\ UNCHANGED <<cfg, st>>
End == st = "design" /\ Len(pts) = Size(cfg) /\ st' = "done" /\ UNCHANGED <<cfg, pts, rec>>
\* another run that keeps the history does not repeat a design that led to an iteration; a reset starts again
Again == st = "done" /\ pts' = <<>> /\ rec' = <<>> /\ st' = "design" /\ UNCHANGED cfg
\* random designs are drawn independently. distinct = number of different coordinates in the points of all designs so far, tot = how many there are.
\* (Chances of a correct code failing: below 1e-11.)
Drawn(distinct, tot) ==
  /\ (cfg.k \in {"random", "lhs"} => distinct = tot)
  /\ (cfg.k = "random" /\ ~cfg.bounded /\ cfg.n * cfg.dim >= 8 => \E i \in DOMAIN pts, j \in 1..cfg.dim : pts[i][j] = 1)
  /\ (cfg.k = "rgrid" /\ cfg.n >= 40 * (cfg.bins + 1) =>
        /\ \A j \in 1..cfg.dim : {pts[i][j] : i \in DOMAIN pts} = 0..cfg.bins
        /\ \A j, k \in 1..cfg.dim : j < k => \E i \in DOMAIN pts : pts[i][j] # pts[i][k])
Range(s) == {s[i] : i \in DOMAIN s}
------------------------------------------------------------------------------
Complete == st = "done" => /\ Len(rec) = Size(cfg)
                           /\ (cfg.k = "grid" => Range(pts) = Grid(cfg))
                           /\ (cfg.k = "lhs" => \A j \in 1..cfg.dim : {pts[i][j] : i \in DOMAIN pts} = 0..(cfg.n - 1))
=============================================================================
