------------------------------ MODULE MCReport ------------------------------
(* Two analyses in hand, made and made anew from either result; whatever was shown of which before,
   a report shows the analysis it is asked for, as it was made last.                             *)
EXTENDS Report, Json, IOUtils
VARIABLES cur, log, shown
vars == <<cur, log, shown>>
Depth == IF IOEnv.TIER = "thorough" THEN 6 ELSE 5
A == {1, 2}
Kinds == {"range", "run", "card", "bars"}
Init == cur = [a \in A |-> 0] /\ log = <<>> /\ shown = {}
DoAnalyse == \E a \in A, r \in {1, 2} :
  /\ Len(log) < Depth /\ cur[a] # r
  /\ cur' = [cur EXCEPT ![a] = r]
  /\ log' = Append(log, [op |-> "analyse", a |-> a, r |-> r])
  /\ UNCHANGED shown
DoShow == \E a \in A, k \in Kinds :
  /\ Len(log) < Depth /\ cur[a] # 0
  /\ log' = Append(log, [op |-> k, a |-> a, r |-> cur[a]])
  /\ shown' = shown \cup {<<Len(log) + 1, cur[a]>>}
  /\ UNCHANGED cur
Next == DoAnalyse \/ DoShow
Spec == Init /\ [][Next]_vars
\* the result shown is the one last analysed there
RECURSIVE Latest(_, _)
Latest(n, a) == IF n = 0 THEN 0 ELSE IF log[n].op = "analyse" /\ log[n].a = a THEN log[n].r ELSE Latest(n - 1, a)
Faithful == \A x \in shown : x[2] = Latest(x[1] - 1, log[x[1]].a)
Emit == Len(log) = Depth /\ log[Depth].op # "analyse" => PrintT("@@" \o ToJson([log |-> log]))
\* the rounding itself: numbers of three digits in units of ten, hundred, thousand and of a tenth
Num(v) == [s |-> 1, m |-> v * 1000, e |-> 2]
Nearest(v, u) == {n \in 0..1000 : Abs(2 * (v - n * u)) <= u}
Rounding == \A v \in {v \in 100..999 : IOEnv.TIER = "thorough" \/ v % 13 = 0 \/ v % 50 = 0} :
  /\ {n \in 0..1000 : Shown([s |-> 1, n |-> n, k |-> 1], Num(v))} = Nearest(v, 10)
  /\ {n \in 0..1000 : Shown([s |-> 1, n |-> n, k |-> 2], Num(v))} = Nearest(v, 100)
  /\ {n \in 0..1000 : Shown([s |-> 1, n |-> n, k |-> 3], Num(v))} = Nearest(v, 1000)
  /\ {n \in 0..9999 : Shown([s |-> 1, n |-> n, k |-> -1], Num(v))} = {10 * v}
  /\ {n \in 0..1000 : Shown([s |-> 1, n |-> n, k |-> 4], Num(v))} = {0}
ASSUME Rounding
=============================================================================
