----------------------------- MODULE TraceDefaults -----------------------------
(* Preparations of the same 1D data with options given or left out. What comes out depends on the
   settings in force alone: those given, and the documented defaults for the others.

   events  prepare  ok, given: function from options to values (as texts), clip, bin, fit: content ids *)
EXTENDS Util, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

Defaults == [dataRange |-> "[-inf, inf]", omitQRanges |-> "None", nbins |-> "100", IEmin |-> "0.01",
             qNudge |-> "0", measDataLink |-> "binnedData"]
InForce(given) == [o \in DOMAIN Defaults |-> IF o \in DOMAIN given THEN given[o] ELSE Defaults[o]]
\* the settings each stage depends on
Stage == [clip |-> {"dataRange", "omitQRanges"}, bin |-> {"dataRange", "omitQRanges", "nbins", "IEmin"},
          fit |-> DOMAIN Defaults]

VARIABLES t, l, s  \* s: what has come out so far, [stage, by, c]
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = {}
Out(e) == {[stage |-> g, by |-> [o \in Stage[g] |-> InForce(e.given)[o]], c |-> e[g]] : g \in DOMAIN Stage}
Check(e) ==
  IF ~e.ok THEN {"C12:preparing the data failed"}
  ELSE Must(\A x \in Out(e) : \A y \in s : (x.stage = y.stage /\ x.by = y.by) => x.c = y.c,
            "C12:an option which is not given does not have its default")
Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == Check(e)
           IN /\ s' = IF e.ok THEN s \cup Out(e) ELSE s
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
