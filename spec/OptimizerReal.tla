----------------------------- MODULE OptimizerReal -----------------------------
(* Validates real optimisations (real models, real scaling/background optimisation, real random
   numbers) against the accept/reject rule of Optimizer. Values are abstracted: a contribution is
   the identity of its parameter values, a goodness-of-fit its rank among all that occurred in the
   run (equal values have equal ranks, Undef for NaN), numeric agreement is given in parts per
   billion of deviation.

   st: pset (ids), gof (rank), x0 (id), step, accepted, hist <<step, rank>>
       dI, dV, dG   deviation of intensity / volumes / goodness-of-fit from those of pset, x0
   dW  how much worse the agreement of a trial is than with the scaling and background at hand
       xok          scaling not negative and background within the mean measured intensity
   w.reloads: the run is stored and loaded meanwhile. The scaling and background are optimised
   once more then, which may improve the goodness-of-fit a little without any accepted pick.

   events start (st, limok), iterate (pick, trial (rank), dT deviation of the evaluated trial
   intensity, limok, st), optimize (trials: ranks in order, limok, st), reload (st), exc *)
EXTENDS Optimizer, Json, IOUtils
LOCAL SX == INSTANCE SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = [none |-> 0]

Tol == 2000
StateOK(o) ==
  Must(o.dI <= Tol, "C02:intensity is not the sum of the contributions")
  \cup Must(o.dV <= Tol, "C02:volumes are not those of the contributions")
  \cup Must(o.dG <= Tol, "C02:goodness-of-fit is not the reduced chi-squared of the scaled model")
  \cup Must(o.xok, "C02:scaling or background out of bounds")

\* the abstract step, with the decision of Optimizer
Abs(w, o, pick, gof) ==
  LET k == OnTrial(w, o) IN
  IF Better(gof, o.gof)
  THEN [pset |-> [o.pset EXCEPT ![k] = pick], gof |-> gof, step |-> o.step + 1,
        accepted |-> o.accepted + 1, hist |-> Append(o.hist, <<o.step, gof>>)]
  ELSE [pset |-> o.pset, gof |-> o.gof, step |-> o.step + 1, accepted |-> o.accepted, hist |-> o.hist]

\* a whole run, the picks themselves are not recorded there
AbsRun(w, o, gofs) ==
  SX!FoldLeft(LAMBDA r, g : IF r.over \/ Stopped(w, r.s) THEN [r EXCEPT !.over = TRUE]
                            ELSE [s |-> Abs(w, r.s, 0, g), used |-> r.used + 1, over |-> FALSE],
              [s |-> o, used |-> 0, over |-> FALSE], gofs)

Same(o, x) ==
  Must(o.pset = x.pset, "C01:contributions after the step")
  \cup Must(o.gof = x.gof, "C01:goodness-of-fit after the step")
  \cup Must(o.accepted = x.accepted, "C01:acceptance counter")
  \cup Must(o.step = x.step, "C03:iteration counter")
  \cup Must(o.hist = x.hist, "C05:acceptance history")

Check(w, e) ==
  CASE e.op = "start" ->
         StateOK(e.st)
         \cup Must(e.limok, "C04:initial value outside its limits")
         \cup Must(e.distinct, "C04:initial values are not fresh draws")
         \cup Must(Len(e.st.pset) = w.n, "C04:number of contributions")
         \cup Must(e.st.step = 0 /\ e.st.accepted = 0, "C03:counters do not start at zero")
         \cup Must(e.st.hist = <<<<0, e.st.gof>>>>, "C05:history does not start with the initial state")
    [] e.op = "iterate" ->
         Same(e.st, Abs(w, s, e.pick, e.trial)) \cup StateOK(e.st)
         \cup Must(e.st.gof = s.gof => e.st.x0 = s.x0, "C01:scaling changed by a rejected pick")
         \cup Must(e.dT <= Tol, "C02:evaluated trial model is not the exchanged one")
         \cup Must(e.dW <= Tol, "C02:adapting scaling and background made the agreement worse")
         \cup Must(e.limok, "C04:picked value outside its limits")
         \cup Must(w.reloads \/ e.pick \notin Range(s.pset), "C04:pick is not a fresh draw")
         \cup Must(w.reloads \/ HistoryOK(e.st), "C05:history is not consistent with the state")
    [] e.op = "optimize" ->
         LET r == AbsRun(w, s, e.trials) IN
         Same([e.st EXCEPT !.pset = r.s.pset], r.s)
         \cup Must(\A k \in 1..w.n : r.s.pset[k] # 0 => e.st.pset[k] = s.pset[k],
                    "C01:contributions changed without an accepted pick")
         \cup StateOK(e.st)
         \cup Must(e.dW <= Tol, "C02:adapting scaling and background made the agreement worse")
         \cup Must(r.used = Len(e.trials), "C03:went on although a criterion was met")
         \cup Must(Stopped(w, e.st), "C03:stopped before any criterion was met")
         \cup Must(e.limok, "C04:picked value outside its limits")
         \cup Must(HistoryOK(e.st), "C05:history is not consistent with the state")
    [] e.op = "reload" ->
         StateOK(e.st)
         \cup Must(e.same, "C11:loaded state differs from the stored one")
         \cup Must(e.st.pset = s.pset /\ e.st.step = s.step /\ e.st.accepted = s.accepted,
                   "C11:loaded contributions or counters differ from the stored ones")
         \cup Must(e.histsame, "C05:history changed by storing and loading")
    [] OTHER -> {IF e.phase = "optimize" THEN "C03:the optimisation did not end as specified"
                 ELSE IF e.phase = "start" THEN "C02:no starting point"
                 ELSE IF e.phase = "reload" THEN "C11:storing and loading failed" ELSE "C01:iteration failed"}

Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == Check(Traces[t].w, e)
           IN /\ s' = IF "st" \in DOMAIN e THEN e.st ELSE s
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
