----------------------------- MODULE MCOptimizer -----------------------------
(* Exhaustive checking of Optimizer, and generation of all its behaviours for replay. *)
EXTENDS Optimizer, Json, IOUtils

VARIABLES w,      \* the world
          s,      \* state of the optimisation
          draws   \* history of random draws (hidden by the view when only checking)

\* number of distinct draws, contributions, iterations per scenario, from the environment
Q2 == <<1, 2>>
Tab == <<1, 3, 2, 5, 1, 4, 7, 2, 6, 3, 8, 1, 5>>

\* [n, D, number of parameters, maxIter, maxAccept, crit, a, M, nan]
Scen(n, D, P, it, acc, crit, a, M, nan) ==
  [n |-> n, D |-> D, q |-> Q2, table |-> Tab,
   lim |-> [p \in 1..P |-> IF p = 1 THEN <<1, 1 + D>> ELSE <<10 * p, 10 * p + D>>],
   pars |-> [p \in 1..P |-> IF p = 1 THEN "factor" ELSE IF p = 2 THEN "aux" ELSE "extra"],
   a |-> a, M |-> M, nan |-> nan, maxIter |-> it, maxAccept |-> acc, crit |-> crit]

QuickWorlds == {
  Scen(1, 4, 1, 4, -1, -5, <<1, 3>>, 17, 5),
  Scen(1, 3, 1, 4, -1,  4, <<1, 3>>, 11, 100),
  Scen(2, 3, 1, 3, -1, -5, <<5, 1>>, 13, 6),
  Scen(2, 3, 1, 4,  1, -5, <<2, 7>>, 19, 3),
  Scen(2, 2, 1, 5,  2,  0, <<3, 4>>, 9, 100),
  Scen(3, 2, 1, 5, -1,  2, <<2, 3>>, 23, 7),
  Scen(2, 2, 2, 2, -1, -5, <<3, 4>>, 9, 100),
  Scen(1, 2, 3, 1, -1, -5, <<3, 4>>, 9, 100),
  Scen(2, 3, 1, 0, -1, -5, <<5, 1>>, 13, 100),
  Scen(2, 3, 1, 3,  0, -5, <<5, 1>>, 13, 100) }
ThoroughWorlds == QuickWorlds \cup {
  Scen(1, 4, 1, 6, -1, -5, <<4, 3>>, 29, 5),
  Scen(2, 3, 1, 5, -1,  1, <<1, 3>>, 31, 8),
  Scen(2, 4, 1, 4,  2,  1, <<1, 3>>, 31, 8),
  Scen(3, 3, 1, 4, -1, -5, <<7, 2>>, 37, 9),
  Scen(3, 2, 1, 7,  3,  0, <<5, 2>>, 27, 9),
  Scen(4, 2, 1, 6, -1,  0, <<2, 9>>, 27, 9),
  Scen(2, 2, 2, 4, -1, -5, <<3, 4>>, 15, 100),
  Scen(1, 2, 3, 3, -1, -5, <<3, 4>>, 15, 100) }
Worlds == IF IOEnv.TIER = "thorough" THEN ThoroughWorlds ELSE QuickWorlds

Draws(ww) == [1..Len(ww.lim) -> 0..ww.D - 1]
Contribution(ww, d) == [p \in 1..Len(ww.lim) |-> DrawValue(ww, p, d[p])]

Init == /\ w \in Worlds
        /\ draws \in [1..w.n -> Draws(w)]
        /\ s = Start(w, [i \in 1..w.n |-> Contribution(w, draws[i])])
        /\ s.gof # Undef      \* no defined starting point: outside the contract
\* one iteration, named after what the trial model is compared with the current one
Trial(d) == TrialOf(w, s, Contribution(w, d)).gof
Do(d) == /\ s' = Iterate(w, s, Contribution(w, d))
         /\ draws' = Append(draws, d)
         /\ w' = w
AcceptBetter == ~Stopped(w, s) /\ \E d \in Draws(w) : Better(Trial(d), s.gof) /\ Do(d)
RejectEqual == ~Stopped(w, s) /\ \E d \in Draws(w) : Trial(d) = s.gof /\ Do(d)
RejectWorse == ~Stopped(w, s) /\ \E d \in Draws(w) : Trial(d) # Undef /\ Trial(d) > s.gof /\ Do(d)
RejectUndefined == ~Stopped(w, s) /\ \E d \in Draws(w) : Trial(d) = Undef /\ Do(d)
Next == AcceptBetter \/ RejectEqual \/ RejectWorse \/ RejectUndefined
Spec == Init /\ [][Next]_<<w, s, draws>> /\ WF_<<w, s, draws>>(Next)

View == <<w, s>>

TypeOK == s.step \in 0..w.maxIter /\ s.accepted \in 0..s.step
ConsistentInv == Consistent(w, s)
HistoryInv == HistoryOK(s)
LimitsInv == \A i \in 1..w.n : InLimits(w, s.pset[i])
\* C03: no state goes beyond a limit, by more than the step that reached it
LimitInv == /\ s.step <= w.maxIter
            /\ w.maxAccept >= 0 => s.accepted <= w.maxAccept
            /\ \A i \in 1..Len(s.hist) - 1 : s.hist[i][2] > w.crit
StepProp == [][OneStep(w, s, s')]_<<w, s, draws>>
GofNeverWorse == [][s'.gof <= s.gof]_<<w, s, draws>>
Terminates == <>Stopped(w, s)

\* one message per complete behaviour
Emit == Stopped(w, s) => PrintT("@@" \o ToJson([w |-> w, draws |-> draws, end |-> s]))
=============================================================================
