------------------------------ MODULE TraceCli ------------------------------
(* w.start  the directory before, w.plots  name -> name of the plot belonging to it
   events   op "run": op.. as in Cli (field "c"), after: directory afterwards,
            other: anything else changed, failed: the tool did not succeed, how             *)
EXTENDS Cli, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
W == Traces[t].w
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = Traces[t].w.start

GroupIn(x, op) == IF IsFile(x, op.res) THEN Content(x, op.res).res[op.idx] ELSE NoGroup
PlotIn(x, op) == IF IsFile(x, W.plots[op.res]) THEN Content(x, W.plots[op.res]) ELSE Fresh
KnownPlots == {s.files[n].user : n \in DOMAIN s.files}

\* the directory the optimiser should leave; what it computed is taken from what is there
ExpOpt(op, x) == LET g == GroupIn(x, op) old == OldGroup(s, op)
  IN AfterOpt(s, op, IF old.hist = 0 THEN [g EXCEPT !.hist = 0, !.hr = <<>>] ELSE g)
\* (an optimisation on its own may leave old histograms or remove them)
ExpHist(b, op, x) == AfterHist(b, op, GroupIn(x, op).hist, PlotIn(x, op).user, W.plots)

\* what a tool which could not do its work may leave
MayLeave(op, x) ==
  \/ SameFiles(s, x)
  \/ op.tool # "hist" /\ ~Refused(s, op) /\
       (\/ SameFiles(Cleared(s, op), x)
        \/ op.bad \in {"run", "range"} /\ (IsFile(Cleared(s, op), op.res) => Content(Cleared(s, op), op.res).kind = "hdf")
           /\ IsFile(x, op.res) /\ SameFiles(ExpOpt(op, x), x))
  \/ op.tool = "hist" /\ op.bad = "range" /\ CanHist(s, [op EXCEPT !.bad = ""])
       /\ LET g == Content(s, op.res).res[op.idx] n == GroupIn(x, op)
          IN SameFiles(Update(s, op.res, [Content(s, op.res) EXCEPT !.res[op.idx] = [g EXCEPT !.hist = n.hist, !.hr = n.hr]]), x)

\* user content which is gone although nobody asked for it
Lost(op, x) == {nm \in Names(s) :
  /\ s.dir[nm].t = "file"
  /\ ~(op.tool # "hist" /\ Deletes(s, op) /\ nm = op.res)
  /\ ~(op.tool # "opt" /\ nm = W.plots[op.res])
  /\ \/ Entry(x, nm).t # "file"
     \/ Entry(x, nm).t = "file" /\ (x.files[x.dir[nm].f].user # s.files[s.dir[nm].f].user
                                    \/ x.files[x.dir[nm].f].kind # s.files[s.dir[nm].f].kind)}
DataLost(op, x) == op.tool # "hist" /\ IsFile(s, op.data) /\
  (~IsFile(x, op.data) \/ Content(x, op.data).user # Content(s, op.data).user \/ Content(x, op.data).kind # Content(s, op.data).kind)
\* other results
Results(op, x) == {nm \in Names(s) : s.dir[nm].t = "file" /\ ~(op.tool # "hist" /\ Deletes(s, op) /\ nm = op.res)
  /\ Entry(x, nm).t = "file" /\ \E i \in 1..MaxIdx : i # op.idx /\ s.files[s.dir[nm].f].res[i] # x.files[x.dir[nm].f].res[i]}

Check(e) ==
  LET op == e.c x == e.after
      works == IF op.tool = "opt" THEN CanOpt(s, op)
               ELSE IF op.tool = "hist" THEN CanHist(s, op)
               ELSE CanOpt(s, op)
      done == IF op.tool = "opt" THEN ExpOpt(op, x)
              ELSE IF op.tool = "hist" THEN ExpHist(s, op, x)
              ELSE ExpHist(ExpOpt(op, x), op, x)
      g == GroupIn(x, op)
      histed == g.hist # 0 /\ Len(g.hr) >= op.h /\ (\A i \in 1..op.h : g.hr[i] = g.reps)
                /\ PlotIn(x, op).kind = "plot" /\ PlotIn(x, op).user \notin KnownPlots
  IN Must(~DataLost(op, x), "C20:the input data file is lost or changed")
     \cup Must(Lost(op, x) = {}, "C20:a user's file is lost or changed")
     \cup Must(Results(op, x) = {}, "C20:another result in the file changed")
     \cup Must(~e.other, "C20:other files changed")
     \cup (IF ~works THEN Must(MayLeave(op, x), "C20:a tool which cannot do its work changes files")
           ELSE Must(~e.failed, "C20:the tool failed")
                \cup (IF e.failed THEN {} ELSE
                      (IF op.tool = "hist" THEN {} ELSE
                         Must(Complete(s, op, g), "C20:the result does not hold the data and all repetitions"))
                      \cup (IF op.tool = "opt" THEN {} ELSE
                         Must(histed, "C20:histograms or plot of the result missing or not of this request"))
                      \cup (IF op.tool # "opt" /\ ~CanHist(ExpOpt(op, x), op) /\ op.tool = "both" THEN {} ELSE
                         Must(SameFiles(done, x), "C20:files of the directory afterwards"))))
Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               bad == IF e.op = "run" THEN Check(e) ELSE {"C20:the tools do not come back"}
           IN /\ s' = IF e.op = "run" THEN e.after ELSE s
              /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l + 1, fails |-> bad]))
        /\ l' = l + 1
        /\ t' = t
=============================================================================
