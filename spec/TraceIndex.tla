------------------------------ MODULE TraceIndex ------------------------------
(* events  write i, kind, id (what was written, as in memory), changed (indices whose group
           changed), rest (anything outside the result groups changed), reads: sequence of
           [i, what, id], everything that can be read (0: nothing there)
           exc                                                                              *)
EXTENDS Index, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = [k \in {} |-> 0]
Check(e) ==
  CASE e.op = "write" ->
         LET want == Done(s, e.i, e.kind, e.id)
             own == {j \in DOMAIN e.reads : e.reads[j].i = e.i}
             Expected(j) == LET k == <<e.reads[j].i, e.reads[j].what>> IN IF k \in DOMAIN want THEN want[k] ELSE 0
         IN Must(Range(e.changed) \subseteq {e.i}, "C09:writing under one result index changes another")
            \cup Must(~e.rest, "C09:writing a result changes other content of the file")
            \cup Must(\A j \in own : e.reads[j].id = Expected(j), "C09:reading under an index does not return what was written under it")
            \cup Must(\A j \in DOMAIN e.reads \ own : e.reads[j].id = Expected(j), "C09:reading under an index returns something else")
    [] OTHER -> {"C09:storing or reading under a result index failed"}
Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == Check(e)
           IN /\ s' = IF e.op = "write" THEN Done(s, e.i, e.kind, e.id) ELSE s
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
