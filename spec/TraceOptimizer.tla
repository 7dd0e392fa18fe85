---------------------------- MODULE TraceOptimizer ----------------------------
(* Validates recorded runs of the real McCore/McModel/McOpt in exact worlds against Optimizer.
   Every event carries the projected state after it, st. The step is compared with the one the
   specification makes from the state observed before it; the validation then goes on from the
   observed state. Each failed clause is named <property>:<what>.

   events  start    draws (k per value drawn), st
           iterate  pick, draws <<lower, upper, k>> made meanwhile, trials intensities evaluated, st
           optimize picks (all that were drawn), draws, st
           reload   st            store to file, load again
           exc      phase         the code raised an error or did not come back                *)
EXTENDS Optimizer, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, l, s

Init == t \in 1..Len(Traces) /\ l = 0 /\ s = [none |-> 0]

Chunk(draws, P, c) == [p \in 1..P |-> draws[(c - 1) * P + p]]
CheckStart(w, e) ==
  LET o == e.st
      P == Len(w.lim)
      fromDraws == [c \in 1..w.n |-> [p \in 1..P |-> DrawValue(w, p, Chunk(e.draws, P, c)[p])]]
  IN Must(Len(e.draws) >= w.n * P, "C04:initial set is not drawn once per parameter and contribution")
     \cup Must(Len(o.pset) = w.n, "C04:number of contributions")
     \cup Must(Len(e.draws) >= w.n * P => o.pset = fromDraws,
               "C04:initial contributions are not the random draws within their limits")
     \cup Must(\A i \in 1..Len(o.pset) : InLimits(w, o.pset[i]), "C04:initial value outside its limits")
     \cup Must(o.modelI = TotalI(w, o.pset), "C02:initial intensity is not the sum of the contributions")
     \cup Must(o.vols = Volumes(w, o.pset), "C02:initial volumes are not those of the contributions")
     \cup Must(o.gof = Gof(w, o.modelI) /\ o.x0 = X0(w, o.modelI), "C02:initial goodness-of-fit or scaling")
     \cup Must(o.step = 0 /\ o.accepted = 0, "C03:counters do not start at zero")
     \cup Must(o.hist = <<<<0, o.gof>>>>, "C05:history does not start with the initial state")

CheckIterate(w, e) ==
  LET o == e.st
      x == Iterate(w, s, e.pick)
      P == Len(w.lim)
      moved == o.gof # s.gof \/ o.pset # s.pset
  IN Must(o.pset = x.pset, "C01:contributions after the iteration")
     \cup Must(o.vols = x.vols, "C01:volumes after the iteration")
     \cup Must(o.modelI = x.modelI, "C01:intensity after the iteration")
     \cup Must(o.gof = x.gof, "C01:goodness-of-fit after the iteration")
     \cup Must(o.x0 = x.x0, "C01:scaling and background after the iteration")
     \cup Must(o.accepted = x.accepted, "C01:acceptance counter after the iteration")
     \cup Must(o.modelI = TotalI(w, o.pset), "C02:intensity is not the sum of the contributions")
     \cup Must(o.vols = Volumes(w, o.pset), "C02:volumes are not those of the contributions")
     \cup Must(o.gof = Gof(w, o.modelI), "C02:goodness-of-fit is not that of the model")
     \cup Must(o.x0 = X0(w, o.modelI), "C02:scaling and background are not those of the model")
     \cup Must(Range(e.trials) = {TrialI(w, s, e.pick)}, "C02:evaluated trial model is not the exchanged one")
     \cup Must(o.step = s.step + 1, "C03:iteration not counted exactly once")
     \cup Must(o.accepted = s.accepted + (IF moved THEN 1 ELSE 0), "C03:accepted pick not counted exactly once")
     \cup Must(InLimits(w, e.pick), "C04:picked value outside its limits")
     \cup Must(Len(e.draws) = P, "C04:not one draw per fit parameter")
     \cup Must(Len(e.draws) = P =>
                 \E f \in Permutations(1..P) : \A p \in 1..P :
                   e.pick[p] = DrawValue(w, p, e.draws[f[p]][3]),
               "C04:picked values are not one draw each between their parameter's own limits")
     \cup Must(o.hist = IF moved THEN Append(s.hist, <<s.step, o.gof>>) ELSE s.hist,
               "C05:history is not extended by exactly the accepted pick")
     \cup Must(HistoryOK(o), "C05:history is not consistent with the state")

CheckOptimize(w, e) ==
  LET o == e.st
      r == Optimize(w, s, e.picks, 0)
      x == r.s
  IN Must(Stopped(w, o), "C03:stopped before any criterion was met")
     \cup Must(r.used = Len(e.picks) /\ o.step = s.step + Len(e.picks),
               "C03:went on although a criterion was met, or miscounted")
     \cup Must(o.step = x.step, "C03:number of iterations")
     \cup Must(o.accepted = x.accepted, "C03:number of accepted picks")
     \cup Must(o.pset = x.pset, "C01:contributions reached")
     \cup Must(o.gof = x.gof, "C01:goodness-of-fit reached")
     \cup Must(Consistent(w, o), "C02:intensity, volumes, scaling and goodness-of-fit do not belong together")
     \cup Must(\A i \in 1..Len(o.pset) : InLimits(w, o.pset[i]), "C04:value outside its limits")
     \cup Must(Len(e.draws) = Len(e.picks) * Len(w.lim), "C04:not one draw per fit parameter")
     \cup Must(o.hist = x.hist, "C05:history is not that of the run")
     \cup Must(HistoryOK(o), "C05:history is not consistent with the state")

CheckReload(w, e) ==
  LET o == e.st
  IN Must(o.pset = s.pset, "C11:contributions changed by storing and loading")
     \cup Must(o.vols = s.vols, "C11:volumes changed by storing and loading")
     \cup Must(o.modelI = s.modelI, "C11:intensity changed by storing and loading")
     \cup Must(o.gof = s.gof /\ o.x0 = s.x0, "C11:goodness-of-fit or scaling changed by storing and loading")
     \cup Must(o.step = s.step /\ o.accepted = s.accepted, "C11:counters changed by storing and loading")
     \cup Must(o.hist = s.hist, "C11:history changed by storing and loading")
     \cup Must(o.hist = s.hist, "C05:history changed by storing and loading")
     \cup Must(Consistent(w, o), "C02:a loaded result does not belong together")
     \cup Must(e.lim = w.lim, "C11:fit limits changed by storing and loading")
     \cup Must(e.stopped = <<w.maxIter, w.maxAccept, w.crit>>, "C11:stopping criteria changed by storing and loading")

CheckExc(e) ==
  {CASE e.phase = "start" -> "C04:no starting point"
     [] e.phase = "iterate" -> "C01:iteration failed"
     [] e.phase = "optimize" -> "C03:the optimisation did not end as specified"
     [] OTHER -> "C11:storing and loading failed"}

Check(w, e) == CASE e.op = "start" -> CheckStart(w, e)
                 [] e.op = "iterate" -> CheckIterate(w, e)
                 [] e.op = "optimize" -> CheckOptimize(w, e)
                 [] e.op = "reload" -> CheckReload(w, e)
                 [] OTHER -> CheckExc(e)

Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == Check(Traces[t].w, e)
           IN /\ s' = IF "st" \in DOMAIN e THEN e.st ELSE s
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
