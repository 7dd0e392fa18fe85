------------------------------ MODULE MCModel ------------------------------
(* MODE=hist: two models, made of two configurations and made anew, prepared for two data sets and
   evaluated for two contributions in any order: what is evaluated is decided by what was made and
   prepared last there.      MODE=sim: the simulated-data model on small worlds.                *)
EXTENDS Model, Json, IOUtils
VARIABLES mods, log, vals, world
vars == <<mods, log, vals, world>>
Depth == IF IOEnv.TIER = "thorough" THEN 7 ELSE 6
M == {1, 2}
Worlds == {[q |-> <<q>>, simq |-> s, simi |-> i, y0 |-> y, sc |-> c, exact |-> e, r |-> r] :
             q \in 1..6, s \in {<<2, 4>>, <<1, 3, 4>>, <<3, 5, 9, 10>>}, i \in {<<8, 2, 5, 1>>, <<1, 1, 1, 1>>},
             y \in {0, 2}, c \in {0, 16}, e \in BOOLEAN, r \in 1..3}
Init == /\ mods = [m \in M |-> [cfg |-> 0, q |-> 0]] /\ log = <<>> /\ vals = {}
        /\ world \in IF IOEnv.MODE = "sim" THEN Worlds ELSE {0}
More == IOEnv.MODE = "hist" /\ Len(log) < Depth /\ world' = world
DoMake == \E m \in M, c \in {1, 2} :
  /\ More
  /\ mods[m].cfg = 0 => (m = 2 => mods[1].cfg # 0)
  /\ mods' = [mods EXCEPT ![m] = [cfg |-> c, q |-> 0]]
  /\ log' = Append(log, [op |-> "make", m |-> m, x |-> c])
  /\ UNCHANGED vals
DoPrepare == \E m \in M, q \in {1, 2} :
  /\ More /\ mods[m].cfg # 0 /\ mods[m].q # q
  /\ mods' = [mods EXCEPT ![m].q = q]
  /\ log' = Append(log, [op |-> "prepare", m |-> m, x |-> q])
  /\ UNCHANGED vals
DoEvaluate == \E m \in M, p \in {1, 2} :
  /\ More /\ mods[m].q # 0
  /\ log' = Append(log, [op |-> "evaluate", m |-> m, x |-> p])
  /\ vals' = vals \cup {<<Len(log) + 1, Evaluated(mods, m, p)>>}
  /\ UNCHANGED mods
DoShow == \E m \in M :
  /\ More /\ mods[m].cfg # 0 /\ log[Len(log)].op # "show"
  /\ log' = Append(log, [op |-> "show", m |-> m, x |-> 0])
  /\ UNCHANGED <<mods, vals>>
Next == DoMake \/ DoPrepare \/ DoEvaluate \/ DoShow
Spec == Init /\ [][Next]_vars
\* by the history alone
Last(n, m, op) == LET k == {k \in 1..n : log[k].op = op /\ log[k].m = m} IN IF k = {} THEN 0 ELSE MaxOf(k)
OwnOnly == \A v \in vals : LET n == v[1] m == log[n].m IN
  /\ Last(n, m, "prepare") > Last(n, m, "make")
  /\ v[2] = <<log[Last(n, m, "make")].x, log[Last(n, m, "prepare")].x, log[n].x>>
\* no value is beyond those of the neighbours, and the parts of the curve join
SimOK == IOEnv.MODE = "sim" =>
  LET w == [world EXCEPT !.simi = SubSeq(@, 1, Len(world.simq))]
      N == Len(w.simq)
      x == w.q[1] * w.r
      v == LookUp(w, x)
  IN /\ v.d > 0
     /\ \A k \in 1..N : LookUp(w, w.simq[k]).n = w.simi[k] * LookUp(w, w.simq[k]).d
     /\ x <= w.simq[N] => MinOf(Range(w.simi)) * v.d <= v.n /\ v.n <= MaxOf(Range(w.simi)) * v.d
     /\ x > w.simq[N] => v = Beyond(w, x)
     /\ v \in LookUps(w, x)
Emit == IOEnv.MODE = "hist" /\ Len(log) = Depth /\ log[Depth].op \in {"evaluate", "show"}
        /\ (\E k \in 1..Depth : log[k].op = "evaluate") => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
