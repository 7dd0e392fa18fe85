------------------------------ MODULE TraceModel ------------------------------
(* events  make m, x       model m made with configuration x
           prepare m, x    for the data with Q number x
           evaluate m, x   for contribution x; c: id of intensity and volume as they are, dI, dV:
                           deviation (parts per billion) from what this model gives on its own (tol: that of the precision of the model)
           show m, same    the default parameters shown are those of the model and its own
           exc                                                                               *)
EXTENDS Model, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = [mods |-> [m \in {1, 2} |-> [cfg |-> 0, q |-> 0]], seen |-> {}]
Check(w, e) ==
  CASE e.op \in {"make", "prepare"} -> {}
    [] e.op = "evaluate" ->
         Must(e.dI <= e.tol, "C23:intensity is not that of the model for the contribution")
         \cup Must(e.dV <= e.tol, "C23:volume is not that of the model for the contribution")
         \cup Must(\A x \in s.seen : x[1] = Evaluated(s.mods, e.m, e.x) => x[2] = e.c,
                   "C23:the same contribution does not give the same intensity each time")
    [] e.op = "show" -> Must(e.same, "C23:default parameters are not those of the model")
    [] OTHER -> {"C23:" \o e.phase \o " failed"}
Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == Check(Traces[t].w, e)
           IN /\ s' = CASE e.op = "make" -> [s EXCEPT !.mods[e.m] = [cfg |-> e.x, q |-> 0]]
                        [] e.op = "prepare" -> [s EXCEPT !.mods[e.m].q = e.x]
                        [] e.op = "evaluate" -> [s EXCEPT !.seen = @ \cup {<<Evaluated(s.mods, e.m, e.x), e.c>>}]
                        [] OTHER -> s
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
