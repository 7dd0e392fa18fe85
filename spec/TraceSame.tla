------------------------------ MODULE TraceSame ------------------------------
(* Runs of the real McHat with the same data, settings and seed: Result(r, mem) of Run depends on
   the repetition alone, so all runs give the same repetitions, however they were scheduled and
   whatever was done before.

   w       fixed: the seed is a fixed one
   events  run  ok, nRep, reps: sequence of [r, c: content id, used: ids of the parameter values] *)
EXTENDS Util, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = {}

Pairs(e) == {[r |-> e.reps[i].r, c |-> e.reps[i].c] : i \in DOMAIN e.reps}
Check(w, e) ==
  Must(e.ok /\ Len(e.reps) = e.nRep, "C07:a run does not give its repetitions")
  \cup Must(w.fixed => \A x \in Pairs(e) : \A y \in s : x.r = y.r => x.c = y.c,
            "C07:a repetition depends on more than data, settings, seed and its number")
  \cup Must(\A i, j \in DOMAIN e.reps : i < j => Range(e.reps[i].used) \cap Range(e.reps[j].used) = {},
            "C07:two repetitions of a run use the same random numbers")

Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == Check(Traces[t].w, e)
           IN /\ s' = s \cup Pairs(e)
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
