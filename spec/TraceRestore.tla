----------------------------- MODULE TraceRestore -----------------------------
(* events  make o, c            an original data set, c: its content as [part |-> id]
           store o, p, c        stored; c: the object's content afterwards
           load o, p, c         restored, a new object
           exc                                                                        *)
EXTENDS Restore, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = [objs |-> [o \in {} |-> 0], places |-> [p \in {} |-> 0]]
Differ(a, b) == {"C10:" \o k \o " not as stored" : k \in {k \in DOMAIN a : k \notin DOMAIN b \/ a[k] # b[k]}}
Check(e) ==
  CASE e.op = "make" -> {}
    [] e.op = "store" -> Must(e.c = s.objs[e.o], "C10:storing changes the data set")
    [] e.op = "load" -> Differ(Restored(s.places, e.p), e.c)
    [] OTHER -> {"C10:storing or restoring failed"}
Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == Check(e)
           IN /\ s' = CASE e.op = "store" -> [s EXCEPT !.places = StoreAt(s.places, e.p, s.objs[e.o])]
                        [] e.op \in {"make", "load"} -> [s EXCEPT !.objs = Upd(s.objs, e.o, e.c)]
                        [] OTHER -> s
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
