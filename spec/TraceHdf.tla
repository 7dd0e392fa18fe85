------------------------------ MODULE TraceHdf ------------------------------
(* Validates recorded histories of storeKV, storeKVPairs and loadKV against Hdf.

   tree    sequence of <<path, value id>>, the leaves found in the file after the operation
   events  store p v refused tree   | pairs p items refused tree
           load p got exists        | loaddict p got (sequence of <<relative path, id>>) default
           exc                                                                                *)
EXTENDS Hdf, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = [p \in {} |-> 0]

AsTree(seq) == [p \in {seq[i][1] : i \in DOMAIN seq} |-> LET i == CHOOSE i \in DOMAIN seq : seq[i][1] = p IN seq[i][2]]
Spec1(e) == CASE e.op = "store" -> Store(s, e.p, e.v)
              [] e.op = "pairs" -> StorePairs(s, e.p, e.items)
              [] OTHER -> s
Below(e) == IF e.op = "store" THEN Blocked(s, e.p) ELSE Blocked(s, Append(e.p, ""))
Unstorable(e) == IF e.op = "store" THEN Bad(e.v) ELSE \E i \in DOMAIN e.items : Bad(e.items[i][2])
Nothing(e) == IF e.op = "store" THEN Leaves(e.p, e.v) = {} ELSE UNION {Leaves(e.p, e.items[i][2]) : i \in DOMAIN e.items} = {}
Check(e) ==
  CASE e.op \in {"store", "pairs"} ->
         LET want == Spec1(e)
             got == AsTree(e.tree)
             elsewhere == {q \in DOMAIN s : ~IsPrefix(e.p, q)}
         IN Must(\A q \in elsewhere : q \in DOMAIN got /\ got[q] = s[q], "C08:a value at another path is changed")
            \cup Must(Below(e) => e.refused \/ Nothing(e), "C08:storing below a value is not refused")
            \cup Must(~Below(e) => (e.refused <=> Unstorable(e)), "C08:a value is refused, or accepted and not stored")
            \cup Must(\A q \in DOMAIN want : q \in DOMAIN got /\ got[q] = want[q], "C08:the value written is not what is stored")
            \cup Must(DOMAIN got \subseteq DOMAIN want, "C08:something is stored which was not written, or is left from before")
    [] e.op = "load" -> Must(e.got = Load(s, e.p), "C08:the value loaded is not the one written last, or the default")
    [] e.op = "loaddict" ->
         IF e.default THEN Must(DOMAIN LoadDict(s, e.p) = {}, "C08:a stored dictionary is not found")
         ELSE Must(AsTree(e.got) = LoadDict(s, e.p), "C08:the dictionary loaded is not the one written last")
    [] OTHER -> {"C08:storing or loading failed"}

Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == Check(e)
           IN /\ s' = IF "tree" \in DOMAIN e THEN AsTree(e.tree) ELSE s
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
