-------------------------------- MODULE Model --------------------------------
(* What a contribution scatters: intensity and volume as a function of the model, its static
   parameters, the measured Q and the contribution's own values, and of nothing else.

   The model made from simulated data, exactly: in units in which everything is an integer,
     q          measured Q                 simq, simi   simulated data, simq increasing
     y0, sc     extrapolation y0 + sc/x^4  r            scaling factor of the contribution
   At a measured Q the simulated data are looked up at x = q*r: the first value below the simulated
   range, linear interpolation inside, the extrapolation beyond it. The volume is r^3 and the
   intensity this value times r^3.                                                              *)
EXTENDS Util

\* a value: w + n/d^e
Rat(n, d) == [w |-> 0, n |-> n, d |-> d, e |-> 1]
Beyond(w, x) == [w |-> w.y0, n |-> w.sc, d |-> x, e |-> 4]
LookUp(w, x) ==
  LET N == Len(w.simq) IN
  IF x < w.simq[1] THEN Rat(w.simi[1], 1)
  ELSE IF x > w.simq[N] THEN Beyond(w, x)
  ELSE LET k == MinOf({j \in 1..N - 1 : x <= w.simq[j + 1]})
           h == w.simq[k + 1] - w.simq[k]
       IN Rat(w.simi[k] * (w.simq[k + 1] - x) + w.simi[k + 1] * (x - w.simq[k]), h)
\* computed in units which are not exact, the very end of the range may be taken for beyond it
LookUps(w, x) == {LookUp(w, x)} \cup
  IF w.exact \/ x # w.simq[Len(w.simq)] THEN {} ELSE {Beyond(w, x)}
Simulated(w, r) == [i \in 1..Len(w.q) |-> LookUps(w, w.q[i] * r)]

-----------------------------------------------------------------------------
\* models in memory: their configuration, and the Q they were last prepared for
Evaluated(mods, m, p) == <<mods[m].cfg, mods[m].q, p>>
=============================================================================
