------------------------------ MODULE OracleData ------------------------------
(* What DataPrep says for given data and a sequence of settings: one message per input. *)
EXTENDS DataPrep, SequencesExt, Json, IOUtils
In == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE i
Init == i \in 1..Len(In)
One(rows, set) ==
  IF Refused(rows, set) THEN [refused |-> TRUE]
  ELSE [refused |-> FALSE, sel |-> Selected(rows, set),
        nopos |-> set.nbins > 0 /\ ~HasPositive(rows, set),
        alts |-> IF set.nbins = 0 \/ ~HasPositive(rows, set) THEN <<>> ELSE SetToSeq(Alternatives(rows, set))]
Large(rows, set) == [sel |-> Selected(rows, set), edges |-> Cardinality(Edges(rows, set)),
                     bins |-> BinnedTerms(rows, set)]
Next == /\ i' = -i
        /\ i > 0
        /\ PrintT("@@" \o ToJson([i |-> i, out |-> [k \in DOMAIN In[i].steps |->
             IF "large" \in DOMAIN In[i] THEN Large(In[i].rows, In[i].steps[k]) ELSE One(In[i].rows, In[i].steps[k])]]))
=============================================================================
