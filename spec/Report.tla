------------------------------- MODULE Report -------------------------------
(* What is shown of an analysis: text reports, plots of single histograms, and the result card.

   An analysis is  [nrep, qmin, qmax,             numbers of repetitions, data range
                    opts,                         optimisation parameters, sequence of Field
                    ranges,                       histogram ranges in the order of the request
                    data, fit]                    measured points <<q, I, sigma>>, mean model intensity
   a range is      [key, par, log, lo, hi, modes (sequence of Field), bars (sequence of <<x, w, y, s>>)]
   a Field is      [name, mean, std, pct]         pct: relative spread in percent, of interest if mean # 0

   Numbers are [s |-> sign, m |-> six digits, e |-> exponent of the first], s = 2 stands for an undefined
   number, s = 0 for zero. A number as it is shown is [s, n, k], n units of 10^k: it has to be the
   rounded one.                                                                                    *)
EXTENDS Util

Abs(x) == IF x < 0 THEN -x ELSE x
Undefined(v) == v.s = 2
Zero(v) == v.s = 0
\* t shows v: the nearest number of units (both neighbours for a tie; six digits are known)
Shown(t, v) ==
  IF Undefined(v) \/ Undefined(t) \/ t.s = 3 THEN t.s = v.s
  ELSE IF Zero(v) THEN t.n = 0
  ELSE /\ t.n # 0 => t.s = v.s
       /\ LET below == t.k - v.e + 5  \* digits of v below the unit
          IN CASE below > 6 -> t.n = 0
               [] below = 6 -> t.n \in (IF v.m <= 500001 THEN {0} ELSE {}) \cup (IF v.m >= 499999 THEN {1} ELSE {})
               [] below \in 1..5 -> t.n <= Pow(10, 6 - below) /\ Abs(v.m - t.n * Pow(10, below)) <= 5 * Pow(10, below - 1) + 1
               [] below \in -3..0 -> Abs(v.m - t.n \div Pow(10, -below)) <= 1
               [] OTHER -> FALSE
\* the same number, up to the last of the six digits
Same(u, v) ==
  IF Undefined(v) \/ Undefined(u) \/ Zero(v) \/ Zero(u) THEN u.s = v.s
  ELSE u.s = v.s /\ \/ u.e = v.e /\ Abs(u.m - v.m) <= 1
                    \/ Abs(u.e - v.e) = 1 /\ {u.m, v.m} = {100000, 999999}
SameAll(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i])

\* a field as it reads: its name, the mean, the spread, and the spread in percent unless the mean is zero
FieldFails(t, f) ==
  Must(Shown(t.mean, f.mean) /\ Shown(t.std, f.std), "C22:a report does not show mean and spread of the analysis")
  \cup Must(IF Zero(f.mean) THEN t.pct = <<>> ELSE Len(t.pct) = 1 /\ (Shown(t.pct[1], f.pct)), "C22:a report does not show the relative spread")
FieldsFails(ts, fs) ==
  IF [i \in DOMAIN ts |-> ts[i].name] # [i \in DOMAIN fs |-> fs[i].name]
  THEN {"C22:a report does not list the quantities of the analysis"}
  ELSE UNION {FieldFails(ts[i], fs[i]) : i \in DOMAIN ts}

\* the report on a histogram range; head: with its first line
RangeFails(t, r, head) ==
  Must(head => t.key = <<r.key>>, "C22:a report carries the number of another range")
  \cup Must(t.par = r.par /\ Shown(t.lo, r.lo) /\ Shown(t.hi, r.hi), "C22:a report does not show the limits of its range")
  \cup FieldsFails(t.fields, r.modes)
RunFails(t, a, head) ==
  Must(head => t.nrep = <<a.nrep>>, "C22:the run report does not show the number of repetitions")
  \cup Must(Shown(t.qmin, a.qmin) /\ Shown(t.qmax, a.qmax), "C22:the run report does not show the range of the data")
  \cup FieldsFails(t.fields, a.opts)

BarsFails(b, r) ==
  Must(Len(b.bars) = Len(r.bars) /\ \A i \in 1..Len(b.bars) : SameAll(b.bars[i], r.bars[i]),
       "C22:a plotted histogram is not the averaged one")
  \cup Must(b.log = r.log, "C22:a plotted histogram has another scale than its range")
\* one panel per range in the order of the request, each with the report on that range
PanelFails(p, r) == BarsFails(p, r) \cup Must(p.label = r.par, "C22:a plotted histogram carries another parameter's name")
                    \cup RangeFails(p.report, r, FALSE)
CardFails(c, a) ==
  IF Len(c.panels) # Len(a.ranges) THEN {"C22:the result card does not show each range once"}
  ELSE UNION {PanelFails(c.panels[i], a.ranges[i]) : i \in DOMAIN c.panels}
       \cup RunFails(c.run, a, FALSE)
       \cup Must(Len(c.data) = Len(a.data) /\ \A i \in DOMAIN c.data : SameAll(c.data[i], a.data[i]),
                 "C22:the result card does not show the measured data")
       \cup Must(Len(c.fit) = Len(a.fit) /\ \A i \in DOMAIN c.fit : SameAll(c.fit[i], a.fit[i]),
                 "C22:the result card does not show the mean model intensity")
RangeOf(a, key) == CHOOSE r \in Range(a.ranges) : r.key = key
=============================================================================
