----------------------------- MODULE OracleModel -----------------------------
(* Evaluates the simulated-data model for the worlds given: [.., rs |-> factors]. *)
EXTENDS Model, Json, IOUtils
Inputs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE i
Init == i \in 1..Len(Inputs)
Next == /\ i' = -i
        /\ i > 0
        /\ PrintT("@@" \o ToJson([i |-> i, vals |-> [k \in DOMAIN Inputs[i].rs |-> Simulated(Inputs[i], Inputs[i].rs[k])]]))
=============================================================================
