------------------------------ MODULE Optimizer ------------------------------
(* One repetition of the Monte Carlo optimisation: McCore with McModel and McOpt.

   A world w makes all numbers exact integers:
     n        number of contributions            lim[p]  <<lower, upper>> of fit parameter p
     D        resolution of a random draw: draw k of 0..D-1 gives lower + k*(upper-lower)/D
     q        measured Q (integers)              table   simulated intensity at Q = 0,1,2,...
     a, M, nan  goodness-of-fit of a total intensity v: (a.v) mod M, undefined where this is nan
     maxIter, maxAccept (-1: unlimited), crit     stopping criteria

   A contribution is the sequence of its fit parameter values, the first is the size factor R the
   simulated data are scaled by: intensity table[R*q]*R^3, volume R^3 (kernel value R^6*table
   divided by the volume). The other parameters are carried along.

   A state s of the optimisation
     pset  contributions      vols  their volumes    modelI total intensity
     gof, x0                  current goodness-of-fit, <<scaling, background>>
     step, accepted           counters               hist   acceptance history, <<step, gof>>      *)
EXTENDS Util

Undef == -1

\* an observed contribution may be anything, the simulated data are known for these only
Known(w, c) == Len(c) > 0 /\ c[1] \in 0..1000 /\ \A i \in 1..Len(w.q) : c[1] * w.q[i] < Len(w.table)
Intensity(w, c) == [i \in 1..Len(w.q) |->
                      IF Known(w, c) THEN w.table[c[1] * w.q[i] + 1] * c[1] * c[1] * c[1] ELSE 0]
Volume(w, c) == IF Known(w, c) THEN c[1] * c[1] * c[1] ELSE 0

TotalI(w, pset) == [j \in 1..Len(w.q) |-> SumSeq([k \in DOMAIN pset |-> Intensity(w, pset[k])[j]])]
Volumes(w, pset) == [i \in 1..Len(pset) |-> Volume(w, pset[i])]

Gof(w, v) == LET g == Dot(w.a, v) % w.M IN IF g = w.nan THEN Undef ELSE g
X0(w, v) == <<1 + (SumSeq(v) % 5), (Dot(w.a, v) % 7) - 3>>

-----------------------------------------------------------------------------
Start(w, pset) ==
  LET v == TotalI(w, pset) IN
  [pset |-> pset, vols |-> Volumes(w, pset), modelI |-> v, gof |-> Gof(w, v), x0 |-> X0(w, v),
   step |-> 0, accepted |-> 0, hist |-> <<<<0, Gof(w, v)>>>>]

Converged(w, s) == s.gof # Undef /\ s.gof <= w.crit
Stopped(w, s) == \/ w.maxAccept >= 0 /\ s.accepted >= w.maxAccept
                 \/ s.step >= w.maxIter
                 \/ Converged(w, s)

OnTrial(w, s) == (s.step % w.n) + 1
TrialI(w, s, pick) == AddVec(s.modelI, SubVec(Intensity(w, pick), Intensity(w, s.pset[OnTrial(w, s)])))
Better(new, old) == new # Undef /\ old # Undef /\ new < old

\* accept: everything describing the model changes together
Accept(s, k, pick, trial) ==
  [s EXCEPT !.pset[k] = pick, !.vols[k] = trial.vol, !.modelI = trial.I, !.gof = trial.gof,
            !.x0 = trial.x0, !.step = @ + 1, !.accepted = @ + 1,
            !.hist = Append(@, <<s.step, trial.gof>>)]
Reject(s) == [s EXCEPT !.step = @ + 1]

Decide(s, k, pick, trial) == IF Better(trial.gof, s.gof) THEN Accept(s, k, pick, trial) ELSE Reject(s)

TrialOf(w, s, pick) == LET v == TrialI(w, s, pick) IN
  [I |-> v, vol |-> Volume(w, pick), gof |-> Gof(w, v), x0 |-> X0(w, v)]
Iterate(w, s, pick) == Decide(s, OnTrial(w, s), pick, TrialOf(w, s, pick))

\* optimize(): iterate until stopped, picks given; [s |-> reached, used |-> picks used up]
RECURSIVE Optimize(_, _, _, _)
Optimize(w, s, picks, used) ==
  IF Stopped(w, s) \/ used = Len(picks) THEN [s |-> s, used |-> used]
  ELSE Optimize(w, Iterate(w, s, picks[used + 1]), picks, used + 1)

-----------------------------------------------------------------------------
\* Properties of single states and steps

\* C02
Consistent(w, s) == /\ s.modelI = TotalI(w, s.pset)
                    /\ s.vols = Volumes(w, s.pset)
                    /\ s.gof = Gof(w, s.modelI)
                    /\ s.x0 = X0(w, s.modelI)
\* C05
HistoryOK(s) ==
  /\ Len(s.hist) = s.accepted + 1
  /\ s.hist[1][1] = 0
  /\ s.hist[Len(s.hist)][2] = s.gof
  /\ \A i \in 1..Len(s.hist) - 1 : /\ s.hist[i][1] <= s.hist[i + 1][1]
                                   /\ Better(s.hist[i + 1][2], s.hist[i][2])
  /\ \A i \in 2..Len(s.hist) : s.hist[i][1] < s.step
\* C04
InLimits(w, c) == /\ Len(c) = Len(w.lim)
                  /\ \A p \in 1..Len(w.lim) : w.lim[p][1] <= c[p] /\ c[p] <= w.lim[p][2]
DrawValue(w, p, k) == w.lim[p][1] + (k * (w.lim[p][2] - w.lim[p][1])) \div w.D
\* C01
OneStep(w, s, t) ==
  /\ t.step = s.step + 1
  /\ \A k \in 1..w.n : k # OnTrial(w, s) => t.pset[k] = s.pset[k] /\ t.vols[k] = s.vols[k]
  /\ \/ t = [s EXCEPT !.step = @ + 1]
     \/ t.accepted = s.accepted + 1 /\ t.gof < s.gof
=============================================================================
