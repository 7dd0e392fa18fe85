----------------------------- MODULE OracleNexus -----------------------------
(* Where Nexus says the data are, for given files, and the tables in given text files. *)
EXTENDS Nexus, Json, IOUtils
In == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE i
Init == i \in 1..Len(In)
One(x) == CASE x.kind = "nexus" -> Resolve(x.file, x.paths)
            [] x.kind = "csv" -> [ok |-> TRUE, rows |-> Table(x.lines, x.opts)]
            [] x.kind = "pdh" -> [ok |-> TRUE, rows |-> PdhTable(x.lines)]
            [] OTHER -> [ok |-> TRUE]
Next == /\ i' = -i
        /\ i > 0
        /\ PrintT("@@" \o ToJson([i |-> i, out |-> [k \in DOMAIN In[i].steps |-> One(In[i].steps[k])]]))
=============================================================================
