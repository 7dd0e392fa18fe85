------------------------------- MODULE Analysis -------------------------------
(* Histograms and averages of the repetitions of a result.

   result  [w, reps]: w a world of Optimizer with in addition
             pow[p]  whether limits and values of parameter p are exponents (value 2^v)
           reps a sequence of [rep, pset, accepted, step], the complete repetitions in the file
   range   [key, p, auto, lo, hi, n, log]: n bins of parameter p between its fit limits (auto) or
           lo and hi (exponents if pow[p]), linearly or logarithmically

   The unit correction of 1e-5 is a common factor left to the comparison. TLC's integers being
   small, powers and roots are left to the comparison as well, as these terms:
     average of xs      mean = sum / length, standard deviation = sqrt(sum((x - mean)^2) / (length - ddof)),
                        undefined if length <= ddof
     modes of n, s, c   (c[i] = n x[i] - s):  mean s/n, variance sum(c^2)/n^3,
                        skewness sum(c^3)/n^4 / variance^(3/2), kurtosis sum(c^4)/n^5 / variance^2,
                        undefined if n = 0 or, the latter two, if all x are the same              *)
EXTENDS Optimizer

Lo(w, g) == IF g.auto THEN w.lim[g.p][1] ELSE g.lo
Hi(w, g) == IF g.auto THEN w.lim[g.p][2] ELSE g.hi
Value(w, p, v) == IF w.pow[p] THEN Pow(2, v) ELSE v

Inside(w, g, c) == Lo(w, g) <= c[g.p] /\ c[g.p] <= Hi(w, g)
\* value minus inner edge k of 1..n-1, up to a positive factor
EdgeCmp(w, g, v, k) ==
  LET lo == Lo(w, g)
      hi == Hi(w, g)
  IN IF g.log /\ w.pow[g.p] THEN g.n * (v - lo) - k * (hi - lo)
     ELSE IF g.log THEN Pow(v, g.n) - Pow(lo, g.n - k) * Pow(hi, k)
     ELSE LET V(x) == Value(w, g.p, x) IN g.n * (V(v) - V(lo)) - k * (V(hi) - V(lo))
OnEdge(w, g, v) == {k \in 1..g.n - 1 : EdgeCmp(w, g, v, k) = 0}
BinOf(w, g, v) == 1 + Cardinality({k \in 1..g.n - 1 : EdgeCmp(w, g, v, k) > 0})

In(w, g, pset) == Indices(Len(pset), LAMBDA i : Inside(w, g, pset[i]))
\* counts inside the bins; values exactly at an inner edge are counted in either of its bins
Counts(w, g, pset) ==
  LET idx == In(w, g, pset)
      at == [i \in Range(idx) |-> OnEdge(w, g, pset[i][g.p])]
      bin == [i \in Range(idx) |-> BinOf(w, g, pset[i][g.p])]
  IN [bins |-> [b \in 1..g.n |-> Cardinality({i \in Range(idx) : at[i] = {} /\ bin[i] = b})],
      edges |-> [k \in 1..g.n - 1 |-> Cardinality({i \in Range(idx) : k \in at[i]})]]
Modes(w, g, pset) ==
  LET idx == In(w, g, pset)
      x == [i \in 1..Len(idx) |-> Value(w, g.p, pset[idx[i]][g.p])]
      s == SumSeq(x)
  IN [n |-> Len(idx), s |-> s, c |-> [i \in 1..Len(idx) |-> Len(idx) * x[i] - s]]

-----------------------------------------------------------------------------
Scaling(w, r) == X0(w, TotalI(w, r.pset))[1]
Background(w, r) == X0(w, TotalI(w, r.pset))[2]
OneRange(res, g) ==
  [key |-> g.key, lo |-> Lo(res.w, g), hi |-> Hi(res.w, g),
   reps |-> [i \in DOMAIN res.reps |->
     [rep |-> res.reps[i].rep, scaling |-> Scaling(res.w, res.reps[i]),
      counts |-> Counts(res.w, g, res.reps[i].pset), modes |-> Modes(res.w, g, res.reps[i].pset)]]]
Over(res, Of(_)) == [i \in DOMAIN res.reps |-> Of(res.reps[i])]
Analyse(res, ranges) ==
  LET w == res.w
  IN [ranges |-> [k \in DOMAIN ranges |-> OneRange(res, ranges[k])],
      opts |-> [scaling |-> Over(res, LAMBDA r : Scaling(w, r)),
                background |-> Over(res, LAMBDA r : Background(w, r)),
                gof |-> Over(res, LAMBDA r : Gof(w, TotalI(w, r.pset))),
                accepted |-> Over(res, LAMBDA r : r.accepted), step |-> Over(res, LAMBDA r : r.step)],
      I |-> [j \in DOMAIN w.q |-> Over(res, LAMBDA r : TotalI(w, r.pset)[j] * Scaling(w, r) + Background(w, r))],
      ddof |-> [opts |-> 1, modes |-> 1, I |-> 0, hist |-> IF Len(res.reps) = 1 THEN 0 ELSE 1]]

-----------------------------------------------------------------------------
(* What a file holds: results by index, and the histograms stored for them, by index and range
   key, as <<range, result they are of>>.                                                       *)
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
StoreHist(file, i, ranges) ==
  [file EXCEPT !.hist[i] = [k \in (DOMAIN @) \cup {ranges[j].key : j \in DOMAIN ranges} |->
     IF \E j \in DOMAIN ranges : ranges[j].key = k
     THEN [g |-> ranges[CHOOSE j \in DOMAIN ranges : ranges[j].key = k], res |-> file.res[i]]
     ELSE @[k]]]
\* interrupted while storing: what is stored for these ranges is anything
CutHist(file, i, ranges) ==
  [file EXCEPT !.hist[i] = [k \in (DOMAIN @) \cup {ranges[j].key : j \in DOMAIN ranges} |->
     IF \E j \in DOMAIN ranges : ranges[j].key = k THEN [g |-> <<>>, res |-> 0] ELSE @[k]]]
Rerun(file, i, res) == [file EXCEPT !.res[i] = res]
=============================================================================
