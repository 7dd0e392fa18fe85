------------------------------ MODULE DataPrep ------------------------------
(* Preparation of 1D data for the fit: clip to a range, omit ranges, rebin, link, offset.

   rows     sequence of [q, i, s] with integers, Undef for an undefined value; with a field u, the
            uncertainty of Q, if known, and x for a further column
   set      settings: lo, hi, omit (sequence of <<from, to>>, half open), nbins, ieN/ieD (minimum
            relative uncertainty), link ("raw", "clip" or "bin"), nudge, pow
   With pow, q, limits and omitted ranges are exponents: Q = 2^q, otherwise Q = q.             *)
EXTENDS Util

Undef == -999999
QV(set, q) == IF set.pow THEN Pow(2, q) ELSE q
Positive(set, q) == set.pow \/ q > 0

-----------------------------------------------------------------------------
Defined(r) == \A f \in DOMAIN r : r[f] # Undef
InRange(set, q) == set.lo <= q /\ q < set.hi
Omitted(set, q) == \E k \in DOMAIN set.omit : set.omit[k][1] <= q /\ q < set.omit[k][2]
Clip(rows, set) == Indices(Len(rows), LAMBDA k : Defined(rows[k]) /\ InRange(set, rows[k].q))
Selected(rows, set) == Indices(Len(rows), LAMBDA k : Defined(rows[k]) /\ InRange(set, rows[k].q) /\ ~Omitted(set, rows[k].q))
Refused(rows, set) == Clip(rows, set) = <<>>

-----------------------------------------------------------------------------
\* Bins 1..nbins, logarithmically spaced from the smallest to the largest positive Q, compared
\* without logarithms: Q >= qmin (qmax/qmin)^(k/n)  <=>  Q^n >= qmin^(n-k) qmax^k
Cmp(set, qmin, qmax, q, k) ==  \* Q minus edge k, up to a positive factor
  IF set.pow THEN set.nbins * (q - qmin) - k * (qmax - qmin)
  ELSE Pow(q, set.nbins) - Pow(qmin, set.nbins - k) * Pow(qmax, k)
BinOf(set, qmin, qmax, q) ==
  IF qmin = qmax THEN 1
  ELSE IF set.pow THEN MinOf({set.nbins - 1, (set.nbins * (q - qmin)) \div (qmax - qmin)}) + 1
  ELSE MaxOf({k \in 0..set.nbins - 1 : Cmp(set, qmin, qmax, q, k) >= 0}) + 1
\* a point right at an inner edge may be counted to either side, computed edges being inexact
AtEdge(set, qmin, qmax, q) == qmin # qmax /\ q # qmin /\ q # qmax
  /\ IF set.pow THEN (set.nbins * (q - qmin)) % (qmax - qmin) = 0
     ELSE \E k \in 1..set.nbins - 1 : Cmp(set, qmin, qmax, q, k) = 0

Rat(n, d) == [n |-> n, d |-> d]
RatMax(a, b) == IF a.n * b.d >= b.n * a.d THEN a ELSE b
\* The uncertainty of a bin's Q, as a term: the largest of these over the bin's rows. A single point
\* has no standard error; an uncertainty which is not known is not propagated.
QTerms(rows, idx) == <<"minimum">> \o (IF Len(idx) > 1 THEN <<"sem">> ELSE <<>>)
                     \o (IF "u" \in DOMAIN rows[idx[1]] THEN <<"propagated">> ELSE <<>>)
\* count, sums and squared uncertainty of the points of a bin, idx: their rows in order
Stats(rows, set, idx) ==
  LET n == Len(idx)
      is == [k \in 1..n |-> rows[idx[k]].i]
      sI == SumSeq(is)
      sII == SumSeq([k \in 1..n |-> is[k] * is[k]])
      sS == SumSeq([k \in 1..n |-> rows[idx[k]].s * rows[idx[k]].s])
      floor == IF sI > 0 THEN Rat((set.ieN * sI) * (set.ieN * sI), (set.ieD * n) * (set.ieD * n)) ELSE Rat(0, 1)
      prop == Rat(sS, n * n)
      sem == IF n = 1 THEN Rat(0, 1) ELSE Rat(n * sII - sI * sI, n * n * (n - 1))
      e == RatMax(RatMax(sem, prop), floor)
  IN [n |-> n, sq |-> SumSeq([k \in 1..n |-> QV(set, rows[idx[k]].q)]), si |-> sI, en |-> e.n, ed |-> e.d, rows |-> idx, qterms |-> QTerms(rows, idx)]

\* The rows of each bin; lower: the Q values which, being at an edge, are counted to the lower bin
BinRows(rows, set, lower) ==
  LET sel == Selected(rows, set)
      pos == SelectSeq(sel, LAMBDA k : Positive(set, rows[k].q))
      Q == {rows[k].q : k \in Range(pos)}
      qmin == MinOf(Q)
      qmax == MaxOf(Q)
      B(k) == LET b == BinOf(set, qmin, qmax, rows[k].q) IN IF rows[k].q \in lower THEN b - 1 ELSE b
      used == Sorted({B(k) : k \in Range(pos)})
  IN [b \in 1..Len(used) |-> SelectSeq(pos, LAMBDA k : B(k) = used[b])]
Binned(rows, set, lower) ==
  LET R == BinRows(rows, set, lower)
  IN [b \in DOMAIN R |-> Stats(rows, set, R[b])]
HasPositive(rows, set) == \E k \in Range(Selected(rows, set)) : Positive(set, rows[k].q)
Edges(rows, set) ==
  LET Q == {rows[k].q : k \in {k \in Range(Selected(rows, set)) : Positive(set, rows[k].q)}}
  IN {q \in Q : AtEdge(set, MinOf(Q), MaxOf(Q), q)}
\* for data too large for exact numbers: the uncertainty of a bin's intensity as a term as well
Terms(rows, idx) == [rows |-> idx, qterms |-> QTerms(rows, idx),
                     iterms |-> <<"minimum", "propagated">> \o (IF Len(idx) > 1 THEN <<"sem">> ELSE <<>>)]
BinnedTerms(rows, set) ==
  LET R == BinRows(rows, set, {})
  IN [b \in DOMAIN R |-> Terms(rows, R[b])]
Alternatives(rows, set) == {Binned(rows, set, L) : L \in SUBSET Edges(rows, set)}
=============================================================================
