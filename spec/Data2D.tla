------------------------------- MODULE Data2D -------------------------------
(* Preparation of 2D data for the fit: the pixels to fit, and back to the detector.

   img   sequence of rows of pixels [x, y (the Q components along direction 1 and 0, integers),
         inf (infinite intensity), zero (no uncertainty), m (masked)], all different in <<x, y>>
   set   settings: q, x, y: pairs of limits of |Q|, |Qx| and |Qy|; nx, ny: offsets
   Infinite limits are Inf.                                                                     *)
EXTENDS Util

Inf == 30000
Abs(v) == IF v < 0 THEN -v ELSE v
Between(v, lim) == lim[1] < Abs(v) /\ (lim[2] = Inf \/ Abs(v) < lim[2])
\* lower < |Q| < upper without roots
Radius(p, lim) == LET r2 == p.x * p.x + p.y * p.y
                  IN /\ lim[1] < 0 \/ lim[1] * lim[1] < r2
                     /\ lim[2] = Inf \/ (lim[2] > 0 /\ r2 < lim[2] * lim[2])
InLimits(p, set) == Between(p.x, set.x) /\ Between(p.y, set.y) /\ Radius(p, set.q)
Fitted(p, set) == InLimits(p, set) /\ ~p.m /\ ~p.inf /\ ~p.zero

Places(img) == {<<r, c>> : r \in DOMAIN img, c \in DOMAIN img[1]}
Wanted(img, set) == {rc \in Places(img) : Fitted(img[rc[1]][rc[2]], set)}
\* what is fitted, row by row
Selected(img, set) ==
  LET W == Len(img[1])
      K == Indices(Len(img) * W, LAMBDA k : Fitted(img[((k - 1) \div W) + 1][((k - 1) % W) + 1], set))
  IN [j \in DOMAIN K |-> <<((K[j] - 1) \div W) + 1, ((K[j] - 1) % W) + 1>>]

\* the part of the detector shown: the smallest one with all the unmasked pixels within the limits
Envelope(img, set) ==
  LET in == {rc \in Places(img) : InLimits(img[rc[1]][rc[2]], set) /\ ~img[rc[1]][rc[2]].m}
      R == {rc[1] : rc \in in}
      C == {rc[2] : rc \in in}
  IN IF in = {} THEN <<>> ELSE <<MinOf(R), MaxOf(R), MinOf(C), MaxOf(C)>>
\* a single row or column is no area
Refused(img, set) == LET e == Envelope(img, set) IN e = <<>> \/ e[1] = e[2] \/ e[3] = e[4]

\* values: one per fitted pixel, undef: what other pixels get
Reconstruct(img, set, values, undef) ==
  LET e == Envelope(img, set)
      s == Selected(img, set)
      At(r, c) == {j \in DOMAIN s : s[j] = <<r, c>>}
  IN [r \in 1..(e[2] - e[1] + 1) |-> [c \in 1..(e[4] - e[3] + 1) |->
       LET j == At(r + e[1] - 1, c + e[3] - 1) IN IF j = {} THEN undef ELSE values[CHOOSE k \in j : TRUE]]]

\* the components of the fitted pixels with the offsets
Q0(img, set) == LET s == Selected(img, set) IN [j \in DOMAIN s |-> img[s[j][1]][s[j][2]].y + set.ny]
Q1(img, set) == LET s == Selected(img, set) IN [j \in DOMAIN s |-> img[s[j][1]][s[j][2]].x + set.nx]
=============================================================================
