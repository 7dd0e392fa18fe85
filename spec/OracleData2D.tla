---------------------------- MODULE OracleData2D ----------------------------
(* What Data2D says for given images, each with a sequence of settings. *)
EXTENDS Data2D, Json, IOUtils
In == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE i
Init == i \in 1..Len(In)
One(img, set) ==
  IF Selected(img, set) = <<>> \/ Refused(img, set) THEN [refused |-> Refused(img, set), none |-> TRUE]
  ELSE [refused |-> FALSE, none |-> FALSE, sel |-> Selected(img, set), q0 |-> Q0(img, set), q1 |-> Q1(img, set),
        env |-> Envelope(img, set),
        rec |-> Reconstruct(img, set, [k \in DOMAIN Selected(img, set) |-> k], 0)]
Next == /\ i' = -i
        /\ i > 0
        /\ PrintT("@@" \o ToJson([i |-> i, out |-> [k \in DOMAIN In[i].steps |->
                                  One(In[i].steps[k].img, In[i].steps[k].set)]]))
=============================================================================
