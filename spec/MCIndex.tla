------------------------------ MODULE MCIndex ------------------------------
EXTENDS Index, Json, IOUtils
VARIABLES have, log
vars == <<have, log>>
Indices3 == {1, 10, 0}
Depth == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
Init == have = [k \in {} |-> 0] /\ log = <<>>
DoOp == \E i \in Indices3 : \E k \in Kinds :
  /\ Len(log) < Depth /\ Can(have, i, k)
  /\ log' = Append(log, [i |-> i, kind |-> k])
  /\ have' = Done(have, i, k, Len(log) + 1)
Next == DoOp
Spec == Init /\ [][Next]_vars
\* per index the file is what the operations of that index alone make of it
RECURSIVE Alone(_, _, _)
Alone(lg, n, i) == IF n = 0 THEN [k \in {} |-> 0]
                   ELSE LET a == Alone(lg, n - 1, i) IN IF lg[n].i = i THEN Done(a, i, lg[n].kind, n) ELSE a
Isolated == \A i \in Indices3 : [k \in {k \in DOMAIN have : k[1] = i} |-> have[k]] = Alone(log, Len(log), i)
OnlyOwn == [][\A k \in DOMAIN have : k[1] # log'[Len(log')].i => k \in DOMAIN have' /\ have'[k] = have[k]]_vars
Emit == Len(log) = Depth => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
