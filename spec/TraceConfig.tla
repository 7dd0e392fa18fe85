----------------------------- MODULE TraceConfig -----------------------------
(* w.cpus
   events
     make  k, hat (as in Config), unknown: an option nobody knows was given, from: result index to
           start from (0: none), failed
     run   k, d, i, cli (0: no, else 1 + threads), hat (for cli, made on the spot), used: sequence of
           [rep, vals, limits, seed, size, init], stored: same, nRep, nCores, procs, conc, kept
     part  one of the components on its own: given, vals, fresh, unknown, failed
     refuse  what: settings which must be refused, failed                                       *)
EXTENDS Config, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
W == Traces[t].w
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = [hats |-> [k \in {} |-> 0], res |-> [k \in {} |-> 0], inits |-> {}]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Hat(e) == IF e.op = "run" THEN (IF e.cli = 0 THEN s.hats[e.k] ELSE Override(e.hat, e.cli - 1))
          ELSE IF e.from # 0 THEN FromResult(e.hat, s.res[e.from]) ELSE e.hat
Key(u) == [m |-> u.vals["modelName"], n |-> u.vals["nContrib"], g |-> u.vals["logRandom"], l |-> u.limits]
Inits(e) == {[key |-> Key(u), seed |-> u.seed, init |-> u.init] : u \in Range(e.used)}
SeedsOf(e) == \A u \in Range(e.used) :
  /\ \A x \in s.inits : (x.init = u.init) =>
        (u.seed # -2 /\ x.seed = u.seed)
  /\ \A x \in s.inits : (u.seed # -2 /\ x.seed = u.seed /\ x.key = Key(u)) => x.init = u.init
  /\ \A x \in Range(e.used) : x.rep # u.rep => x.init # u.init

SameLimits(a, b) == Len(a) = Len(b) /\ Range(a) = Range(b)
CheckRun(e) ==
  LET h == Hat(e) want == RunOf(h, e.d) IN
  Must({u.rep : u \in Range(e.used)} = DOMAIN want /\ Len(e.used) = Reps(h), "C21:number of repetitions done")
  \cup Must({u.rep : u \in Range(e.stored)} = DOMAIN want /\ Len(e.stored) = Reps(h) /\ e.nRep = Reps(h), "C21:number of repetitions stored")
  \cup UNION {LET u == e.used[j] IN
         UNION {Must(u.vals[o] = InForce(h, o), "C21:option not in force: " \o o) : o \in Options}
         \cup Must(SameLimits(u.limits, Limits(h, e.d)), "C21:fit parameter limits in force")
         \cup Must(u.seed = Seed(h, u.rep), "C21:seed in force")
         \cup Must(u.size, "C21:number of contributions")
         \cup Must(u.within, "C21:values outside of the limits in force") : j \in DOMAIN e.used}
  \cup UNION {LET u == e.stored[j] IN
         UNION {Must(u.vals[o] = InForce(h, o), "C21:option not stored: " \o o) : o \in Options \ {"logRandom"}}
         \cup Must(SameLimits(u.limits, Limits(h, e.d)), "C21:fit parameter limits stored")
         \cup Must(u.seed = Seed(h, u.rep), "C21:seed stored") : j \in DOMAIN e.stored}
  \cup Must(h.nCores < 1 \/ e.nCores = h.nCores, "C21:number of processes stored")
  \cup Must(e.procs <= Cores(h, W.cpus) /\ e.conc = Cores(h, W.cpus), "C21:number of processes at work")
  \cup Must(e.kept, "C21:the caller's settings or data are modified")
  \cup Must(SeedsOf(e), "C21:the seed does not decide the random numbers")
Check(e) ==
  CASE e.op = "make" -> IF e.unknown THEN Must(e.failed, "C21:an unknown option is not refused")
                        ELSE Must(~e.failed, "C21:known options are refused")
    [] e.op = "run" -> IF e.failed THEN {"C21:the run failed"} ELSE CheckRun(e)
    [] e.op = "part" -> IF e.unknown THEN Must(e.failed, "C21:an unknown option is not refused")
                        ELSE Must(~e.failed, "C21:known options are refused")
                             \cup (IF e.failed THEN {} ELSE
                                   UNION {Must(e.vals[o] = IF o \in DOMAIN e.given THEN e.given[o] ELSE 0,
                                               "C21:option of a component: " \o o) : o \in DOMAIN e.vals}
                                   \cup Must(e.fresh, "C21:a new component is not in its initial state, or what it was given was changed"))
    [] e.op = "refuse" -> Must(e.failed, "C21:not refused: " \o e.what)
    [] OTHER -> {"C21:making or running an optimiser does not end"}
After(e) ==
  CASE e.op = "make" /\ ~e.failed -> [s EXCEPT !.hats = Put(@, e.k, Hat(e))]
    [] e.op = "run" /\ ~e.failed -> [s EXCEPT !.res = Put(@, e.i, Hat(e)), !.inits = @ \cup Inits(e)]
    [] OTHER -> s
Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == Check(e)
           IN /\ s' = After(e)
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
