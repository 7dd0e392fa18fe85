------------------------------ MODULE TraceState ------------------------------
(* events  make o, c              an optimised core; c: its content [shared, own], [part |-> id]
           store o, r, rep, c     stored; c: its content afterwards
           load o, r, rep, c      restored as McModel and McOpt
           core o, r, rep, c      restored as McCore (evaluated anew)
           continue o, c          optimised further
   own.steps, own.gofs (sequences of ids), own.lgI (intensities, 1e7 log10) are compared as such. *)
EXTENDS State, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = [objs |-> [o \in {} |-> 0], file |-> NoFile]
Differ(a, b, skip) == {"C11:" \o k \o " not as stored" : k \in {k \in DOMAIN a : k \notin skip /\ (k \notin DOMAIN b \/ a[k] # b[k])}}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 20
IsPrefix2(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Check(e) ==
  CASE e.op = "make" -> {}
    [] e.op = "store" -> Must(e.c = s.objs[e.o], "C11:storing changes the result")
    [] e.op = "load" ->
         LET x == Restored(s.file, e.r, e.rep)
         IN Differ(x.shared, e.c.shared, {}) \cup Differ(x.own, e.c.own, {})
    [] e.op = "core" ->  \* volumes, intensity, goodness-of-fit and scaling are determined anew
         LET x == Restored(s.file, e.r, e.rep)
         IN Differ(x.shared, e.c.shared, {})
            \cup Differ(x.own, e.c.own, {"modelI", "volumes", "gof", "x0", "lgI", "lgV"})
            \cup Must(Near(x.own.lgI, e.c.own.lgI), "C11:the loaded core does not reproduce the model intensity")
            \cup Must(Near(x.own.lgV, e.c.own.lgV), "C11:the loaded core does not reproduce the volumes")
    [] e.op = "continue" ->
         LET a == s.objs[e.o].own
             b == e.c.own
         IN Must(IsPrefix2(a.steps, b.steps) /\ IsPrefix2(a.gofs, b.gofs), "C11:continuing does not extend the history")
            \cup Must(b.step = a.step + e.n, "C11:continuing does not go on from the iteration reached")
            \cup Must(b.accepted - a.accepted = Len(b.steps) - Len(a.steps), "C11:continuing does not go on counting")
            \cup Must(b.names = a.names /\ b.nContrib = a.nContrib /\ b.inlim, "C11:continuing leaves the fit limits or parameters")
            \cup Must(e.c.shared = s.objs[e.o].shared, "C11:continuing changes the model")
    [] OTHER -> {"C11:" \o e.phase \o " failed"}
Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == Check(e)
           IN /\ s' = CASE e.op = "store" -> [s EXCEPT !.file = StoreAt(s.file, e.r, e.rep, s.objs[e.o])]
                        [] e.op = "exc" -> s
                        [] OTHER -> [s EXCEPT !.objs = Put(s.objs, e.o, e.c)]
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
