------------------------------ MODULE TracePicks ------------------------------
(* Random picks of McModel. With the logarithmic option limits, values and draws are exponents,
   otherwise the numbers themselves: the same rule applies to both.
   w: D, lim, keys (names of the fit parameters, sorted)
   events  picks  draws <<lower, upper, k>>, vals, keys, static (unchanged)
           stat   n picks of one parameter, counts per quarter of its range
           fresh  n values, number of distinct ones                                           *)
EXTENDS Optimizer, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
Init == t \in 1..Len(Traces) /\ l = 0

Check(w, e) ==
  CASE e.op = "picks" ->
         LET P == Len(w.lim) IN
         Must(e.keys = w.keys, "C04:not exactly the fit parameters are varied")
         \cup Must(e.static, "C04:static parameters changed")
         \cup Must(InLimits(w, e.vals), "C04:value outside its limits")
         \cup Must(Len(e.draws) = P, "C04:not one draw per fit parameter")
         \cup Must(Len(e.draws) = P =>
                \E f \in Permutations(1..P) : \A p \in 1..P :
                   e.vals[p] = DrawValue(w, p, e.draws[f[p]][3]),
               "C04:values are not one draw each, linear or logarithmic between the parameter's own limits")
    [] e.op = "stat" ->   \* six standard deviations
         Must(e.inside, "C04:value outside its limits")
         \cup Must(\A i \in 1..4 : (4 * e.counts[i] - e.n) * (4 * e.counts[i] - e.n) <= 108 * e.n,
                   "C04:values do not span the (logarithmic) range evenly")
    [] e.op = "fresh" -> Must(e.distinct = e.n, "C04:values are not fresh draws")
    [] OTHER -> {"C04:no random picks"}

Next == /\ l < Len(Traces[t].ev)
        /\ LET bad == Check(Traces[t].w, Traces[t].ev[l + 1])
           IN bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
