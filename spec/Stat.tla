-------------------------------- MODULE Stat --------------------------------
(* Statistics (limbo/stat, limbo/experimental/stat): what the files of the result directory contain. The run loop is BO; each statistic is
   called once per iteration, when the new pair is recorded and the model and the counters are still those of the proposal.
   Numbers are multiples of 1/192, so that points, grids and values are integers; the model is a mock whose predictions tell how many
   samples it holds (Mu, Sigma), how often it was tuned (kernel and mean parameters) and for which iteration it is asked (Acq).       *)
EXTENDS BO
VARIABLES files,   \* name -> sequence of lines; a line is <<iteration, values...>>
          grids,   \* iterations for which a grid of the model was written
          fronts,  \* iterations (of a call) for which a Pareto front was written
          seg,     \* length of the files before the current run (a run starts when the total is zero)
          hidden,  \* positions of the history added by hand in the middle of a run: they are no evaluation of it
          mt       \* number of hyper-parameter optimisations of the object
statVars == <<files, grids, fronts, seg, hidden, mt>>
Evaluated == {"samples", "observations", "aggregated_observations"}
PerIteration == {"best_samples", "best_observations", "best_aggregated_observations", "gp_kernel_hparams", "gp_mean_hparams",
                 "gp_likelihood", "gp_acquisitions", "gp_prediction_differences"}
Base == Evaluated \cup PerIteration
Names == IF cfg.kind = "multi" THEN Base \cup {"hypervolume"} ELSE Base

Unit == 192
Pt(id) == SubSeq(<<id * 3, (id % 8) * 24, 96>>, 1, cfg.din)
RECURSIVE Dot(_, _)
Dot(p, i) == IF i > Len(p) THEN 0 ELSE i * p[i] + Dot(p, i + 1)
Scaled(s) == [i \in DOMAIN s |-> Unit * s[i]]
Abs(x) == IF x < 0 THEN -x ELSE x
Mu(n, p) == [k \in 1..cfg.dout |-> 16 * n + k + Dot(p, 1)]
Sigma(n, p) == 3 * n + 2 + Dot(p, 1)
Acq(n, p) == 8 * cur + Agg(afun, Mu(n, p))

\* dominated volume over the reference (3 below the origin)
Vecs == {data[i][2] : i \in DOMAIN data}
Geq(a, b) == \A j \in DOMAIN a : a[j] >= b[j]
NonDom(S) == {a \in S : ~\E b \in S : Geq(b, a) /\ a # b}
Ref == 3
Hv(S) == Cardinality({c \in [1..cfg.dout -> 1..(3 + Ref)] : \E s \in S : \A j \in 1..cfg.dout : s[j] + Ref >= c[j]})

\* what the three files of evaluations say about the i-th pair
About(f, i) == CASE f = "samples" -> Pt(data[i][1])
                 [] f = "observations" -> Scaled(data[i][2])
                 [] f = "aggregated_observations" -> <<Unit * Agg(afun, data[i][2])>>
Last == data[Len(data)]
Best == data[BestIdx(afun, data)]
N == Len(model)
Now(f) == CASE f = "best_samples" -> Pt(Best[1])
            [] f = "best_observations" -> Scaled(Best[2])
            [] f = "best_aggregated_observations" -> <<Unit * Agg(afun, Best[2])>>
            [] f = "gp_kernel_hparams" -> <<Unit * N, Unit * mt>>
            [] f = "gp_mean_hparams" -> <<Unit * (N + 1), Unit * (2 * mt)>>
            [] f = "gp_likelihood" -> <<Unit * (7 * N - mt - 50)>>
            [] f = "gp_acquisitions" -> LET p == Pt(Last[1]) IN <<Unit * Agg(afun, Mu(N, p)), Unit * Sigma(N, p), Unit * Acq(N, p)>>
            [] f = "gp_prediction_differences" -> LET q == Agg(afun, Mu(N, Pt(Last[1])))
                                                     o == Agg(afun, Last[2])
                                                  IN <<Unit * q, Unit * o, Unit * Abs(q - o)>>
\* lines added by one call of the statistics
New(f) == IF f \in Evaluated
          THEN (IF tot = 0 THEN [i \in 1..(Len(data) - 1) |-> <<-1>> \o About(f, i)] ELSE <<>>) \o << <<tot>> \o About(f, Len(data)) >>
          ELSE IF f = "hypervolume" THEN << <<cur, Unit * Hv(Vecs)>> >>
          ELSE << <<tot>> \o Now(f) >>
Console == <<Unit * tot>> \o Pt(Last[1]) \o <<Unit * Agg(afun, Last[2]), Unit * Agg(afun, Best[2])>>
\* the grid of the model: every point of the regular grid once
GridPts == {[d \in 1..cfg.din |-> (Unit * g[d]) \div cfg.bins] : g \in [1..cfg.din -> 0..cfg.bins]}
Grid == {p \o Scaled(Mu(N, p)) \o <<Unit * Sigma(N, p), Unit * Acq(N, p)>> : p \in GridPts}
\* admissible rows of the Pareto front: recorded pairs, all non-dominated vectors and only these
FrontOk(rows) == LET vec(r) == [k \in 1..cfg.dout |-> r[cfg.din + k] \div Unit]
                     S == {rows[i] : i \in DOMAIN rows}
                 IN /\ S \subseteq {Pt(data[i][1]) \o Scaled(data[i][2]) : i \in DOMAIN data}
                    /\ {vec(r) : r \in S} = NonDom(Vecs)

StatInit == files = [f \in Base |-> <<>>] /\ grids = {} /\ fronts = {} /\ seg = 0 /\ hidden = {} /\ mt = 0
\* a call of the statistics (with the iteration that follows it in BO)
StatStats == /\ Stats
             /\ IF cfg.on THEN /\ files' = [f \in DOMAIN files |-> files[f] \o New(f)]
                               /\ grids' = IF cfg.kind = "multi" THEN grids ELSE grids \cup {tot}
                               /\ fronts' = IF cfg.kind = "multi" THEN fronts \cup {cur} ELSE fronts
                          ELSE UNCHANGED <<files, grids, fronts>>
             /\ seg' = IF tot = 0 THEN Len(files["samples"]) ELSE seg
             /\ hidden' = IF tot = 0 THEN {} ELSE hidden
             /\ UNCHANGED mt
StatTune == Tune /\ mt' = mt + 1 /\ UNCHANGED <<files, grids, fronts, seg, hidden>>
StatAdd(x, ok, y) == UserAdd(x, ok, y) /\ hidden' = (IF ok /\ tot > 0 THEN hidden \cup {Len(data')} ELSE hidden)
                     /\ UNCHANGED <<files, grids, fronts, seg, mt>>
StatStart(r, a) == Start(r, a) /\ hidden' = (IF r THEN {} ELSE hidden) /\ UNCHANGED <<files, grids, fronts, seg, mt>>
StatKeep(A) == A /\ UNCHANGED statVars
------------------------------------------------------------------------------
(* Properties of the design *)
Part(f) == SubSeq(files[f], seg + 1, Len(files[f]))
RECURSIVE Visible(_)
Visible(i) == IF i > Len(data) THEN <<>> ELSE (IF i \in hidden THEN <<>> ELSE <<data[i]>>) \o Visible(i + 1)
\* between two iterations of a run, the files tell every evaluation of it, in order, with its iteration
Story == (cfg.on /\ pc = "head" /\ tot > 0) =>
            LET v == Visible(1)
                s == Part("samples")
                o == Part("observations")
            IN /\ Len(s) = Len(v) /\ Len(o) = Len(v)
               /\ \A i \in DOMAIN v : Tail(s[i]) = Pt(v[i][1]) /\ Tail(o[i]) = Scaled(v[i][2]) /\ s[i][1] = o[i][1]
               /\ \A i \in DOMAIN v : s[i][1] = IF i <= Len(v) - tot THEN -1 ELSE i - (Len(v) - tot) - 1
\* one line per iteration of the run
OnePerIteration == (cfg.on /\ pc = "head" /\ tot > 0) => \A f \in PerIteration :
                      \A k \in 1..tot : files[f][Len(files[f]) - tot + k][1] = k - 1
Silent == ~cfg.on => \A f \in Base : files[f] = <<>>
FilesGrow == [][\A f \in Base : Len(files'[f]) >= Len(files[f]) /\ SubSeq(files'[f], 1, Len(files[f])) = files[f]]_files
=============================================================================
