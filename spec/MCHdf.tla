------------------------------- MODULE MCHdf -------------------------------
(* All short histories of writes; the tree is compared with what the history of writes says by
   itself: the last write that covers a path decides what is there.                             *)
EXTENDS Hdf, Json, IOUtils

VARIABLES tree, log
vars == <<tree, log>>

V(n) == [t |-> "val", id |-> n]
N == [t |-> "none"]
D(items) == [t |-> "dict", items |-> items]
B == [t |-> "bad"]
\* value ids are those of the catalogue of the harness
SmallVals == {V(1), V(2), N, D(<<>>), D(<<<<"a", V(1)>>>>), D(<<<<"a", V(3)>>, <<"b", N>>>>),
              D(<<<<"b", D(<<<<"a", V(2)>>>>)>>, <<"a", V(1)>>>>),
              B, D(<<<<"a", V(2)>>, <<"b", B>>>>)}
SmallPaths == {<<"a">>, <<"a", "a">>, <<"a", "b">>, <<"b">>}
GenVals == {V(n) : n \in 1..20} \cup {N, D(<<>>), D(<<<<"x", V(4)>>, <<"y", V(9)>>>>), D(<<<<"x", V(7)>>, <<"z", N>>>>),
            D(<<<<"x", D(<<<<"y", V(5)>>>>)>>, <<"y", V(12)>>>>)}
GenPaths == {<<"p", "x">>, <<"p">>}
Vals == IF IOEnv.MODE = "gen" THEN GenVals ELSE SmallVals
Paths == IF IOEnv.MODE = "gen" THEN GenPaths ELSE SmallPaths
Depth == IF IOEnv.MODE = "gen" THEN 2 ELSE IF IOEnv.TIER = "thorough" THEN 4 ELSE 3

Init == tree = [p \in {} |-> 0] /\ log = <<>>
DoStore == \E p \in Paths : \E v \in Vals :
  /\ Len(log) < Depth
  /\ tree' = Store(tree, p, v)
  /\ log' = Append(log, [p |-> p, v |-> v])
Next == DoStore
Spec == Init /\ [][Next]_vars

\* which writes took effect is the only thing taken from the trees
RECURSIVE Effective(_, _)
Effective(tr, lg) == IF lg = <<>> THEN <<>>
                     ELSE (IF Blocked(tr, Head(lg).p) \/ Head(lg).v.t = "bad" THEN <<>> ELSE <<Head(lg)>>)
                          \o Effective(Store(tr, Head(lg).p, Head(lg).v), Tail(lg))
Universe == {w[1] : w \in UNION {Leaves(p, v) : p \in Paths, v \in Vals}}
Said(lg, q) == LET cover == {i \in DOMAIN lg : IsPrefix(lg[i].p, q)}
               IN IF cover = {} THEN {}
                  ELSE {x[2] : x \in {x \in Leaves(lg[MaxOf(cover)].p, lg[MaxOf(cover)].v) : x[1] = q}}
LastWriteDecides ==
  LET eff == Effective([p \in {} |-> 0], log)
  IN \A q \in Universe : Said(eff, q) = IF q \in DOMAIN tree THEN {tree[q]} ELSE {}
\* a leaf has nothing below it
Wellformed == \A p, q \in DOMAIN tree : ~ProperPrefix(p, q)
NothingElse == [][\A q \in DOMAIN tree : LET p == log'[Len(log')].p
                                         IN ~IsPrefix(p, q) => q \in DOMAIN tree' /\ tree'[q] = tree[q]]_vars
Emit == Len(log) = Depth /\ IOEnv.MODE = "gen" => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
