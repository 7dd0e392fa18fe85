----------------------------- MODULE TraceReport -----------------------------
(* events  analyse a, ana (the analysis)
           range a, key, text     the report on a range        run a, text
           bars a, key, plot      a single histogram plotted    card a, card, saved
           exc                                                                       *)
EXTENDS Report, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = [k \in {} |-> 0]
Check(e) ==
  CASE e.op = "analyse" -> {}
    [] e.op = "range" -> RangeFails(e.text, RangeOf(s[e.a], e.key), e.head)
    [] e.op = "run" -> RunFails(e.text, s[e.a], e.head)
    [] e.op = "bars" -> BarsFails(e.plot, RangeOf(s[e.a], e.key))
    [] e.op = "card" -> CardFails(e.card, s[e.a]) \cup Must(e.saved, "C22:the result card is not saved where it should be")
    [] OTHER -> {"C22:reporting failed"}
Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == Check(e)
           IN /\ s' = IF e.op = "analyse" THEN [k \in (DOMAIN s) \cup {e.a} |-> IF k = e.a THEN e.ana ELSE s[k]] ELSE s
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
