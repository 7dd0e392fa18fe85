------------------------------ MODULE MCRestore ------------------------------
(* All short histories over two original data sets and two places; objects are numbered, the
   contents are those of originals only, however often things are copied.                      *)
EXTENDS Restore, Json, IOUtils
VARIABLES objs, places, log
vars == <<objs, places, log>>
Places2 == {"p", "q"}
Depth == IF IOEnv.TIER = "thorough" THEN 6 ELSE 5
Init == objs = <<101, 102>> /\ places = [p \in {} |-> 0] /\ log = <<>>
DoStore == \E o \in DOMAIN objs : \E p \in Places2 :
  /\ Len(log) < Depth
  \* storing the same again right away, or an older copy where a newer exists, adds nothing here
  /\ o = Len(objs) \/ o <= 2
  /\ places' = StoreAt(places, p, objs[o])
  /\ log' = Append(log, [op |-> "store", o |-> o, p |-> p])
  /\ UNCHANGED objs
DoRestore == \E p \in DOMAIN places :
  /\ Len(log) < Depth
  /\ log[Len(log)].op = "store"
  /\ objs' = Append(objs, Restored(places, p))
  /\ log' = Append(log, [op |-> "load", o |-> Len(objs) + 1, p |-> p])
  /\ UNCHANGED places
Next == DoStore \/ DoRestore
\* the content of a place by the history alone: the original behind the last store
RECURSIVE Origin(_, _)
Origin(lg, o) == IF o <= 2 THEN 100 + o
                 ELSE LET k == CHOOSE k \in DOMAIN lg : lg[k].op = "load" /\ lg[k].o = o
                          before == SubSeq(lg, 1, k - 1)
                          st == {j \in DOMAIN before : before[j].op = "store" /\ before[j].p = lg[k].p}
                      IN Origin(before, lg[MaxOf(st)].o)
Copies == \A o \in DOMAIN objs : objs[o] = Origin(log, o)
Emit == Len(log) = Depth /\ log[Depth].op = "load" => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
