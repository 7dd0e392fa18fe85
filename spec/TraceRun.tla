------------------------------- MODULE TraceRun -------------------------------
(* Validates recorded runs of the real McHat (with its worker processes, result file, faults and
   interruptions) against the verdicts of Run.

   w       nRep; fault: "none" | "error" (storing fails at one write) | "stop" (the run is stopped)
   events  open p / close p   a process has the result file open for writing
           computed r, c      a repetition is computed, c: its parts (content ids) in memory
           failed r           storing this repetition was made to fail
           end    raised      how the run ended; hung
                  file        sequence of [r, complete, c] as found in the result file
           analysis used      repetitions the analysis used, ok                                *)
EXTENDS Util, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 0
        /\ s = [open |-> {}, computed |-> {}, failed |-> {}, done |-> {}]

Reps(w) == 0..w.nRep - 1
P(w) == IF w.fault = "none" THEN "C06:" ELSE "C17:"
Complete(e) == {e.file[i].r : i \in {i \in DOMAIN e.file : e.file[i].complete}}

CheckEnd(w, e) ==
  LET there == {e.file[i].r : i \in DOMAIN e.file}
      unmixed == \A i \in DOMAIN e.file : e.file[i].complete /\ (\E c \in s.computed : c.r = e.file[i].r) => [r |-> e.file[i].r, c |-> e.file[i].c] \in s.computed
  IN Must(~e.hung, P(w) \o "the run does not come to an end")
     \cup Must(there \subseteq Reps(w), P(w) \o "repetitions in the file which are none of the run")
     \cup Must(unmixed, P(w) \o "a repetition in the file is not what that repetition computed")
     \cup (CASE w.fault = "none" ->
                  Must(~e.raised, "C06:the run failed")
                  \cup Must(Complete(e) = Reps(w), "C06:not every repetition is complete in the file")
             [] w.fault = "error" ->
                  Must(~e.raised, "C17:the run does not go on after a failed store")
                  \cup Must(Reps(w) \ s.failed \subseteq Complete(e), "C17:another repetition is not complete")
             [] OTHER ->
                  \* whoever had another repetition in hand has finished storing his own before
                  Must(s.done \subseteq Complete(e), "C17:a repetition stored before the interruption is not complete"))

Check(w, e) ==
  CASE e.op = "open" -> Must(s.open \subseteq {e.p}, "C06:two processes have the result file open for writing")
    [] e.op = "end" -> CheckEnd(w, e)
    [] e.op = "analysis" ->
         Must(e.ok, P(w) \o "the analysis does not work")
         \cup Must(e.ok => Range(e.used) = s.done /\ Len(e.used) = Cardinality(s.done),
                   P(w) \o "the analysis does not use exactly the complete repetitions")
    [] OTHER -> {}

Step(w, e) ==
  CASE e.op = "open" -> [s EXCEPT !.open = @ \cup {e.p}]
    [] e.op = "close" -> [s EXCEPT !.open = @ \ {e.p}]
    [] e.op = "computed" -> [s EXCEPT !.computed = @ \cup {[r |-> e.r, c |-> e.c]}]
    [] e.op = "failed" -> [s EXCEPT !.failed = @ \cup {e.r}]
    [] e.op = "stored" -> [s EXCEPT !.done = @ \cup {e.r}]
    [] e.op = "end" -> [s EXCEPT !.done = Complete(e)]
    [] OTHER -> s

Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == Check(Traces[t].w, e)
           IN /\ s' = Step(Traces[t].w, e)
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
