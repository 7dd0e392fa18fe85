-------------------------------- MODULE Cli --------------------------------
(* The command line tools in a directory of files.

   dir    name -> [t |-> "none" | "file" | "link", to |-> name, f |-> file number]
   files  sequence of [kind |-> "text" | "hdf" | "plot", user |-> content not made by McSAS3 (0: none),
                       res |-> sequence over result indices of [core, data, reps, hist, hr]]
          core: what was optimised (0: nothing), data: user content it was made for, reps: complete
          repetitions 0..reps-1, hist: histograms (0: none), hr: for each range its repetitions
   Names may be symbolic links, several names may be the same file (hard links).

   op     tool |-> "opt" | "hist" | "both", data, res names, del deletion requested, idx position of
          the result index, n repetitions, h histogram ranges, bad: what is wrong with it, if anything:
          "config" a configuration file is missing or no yaml file, "read" the data cannot be read as
          configured, "run" unknown option for the run, "range" histogram of an unknown parameter  *)
EXTENDS Util

NoGroup == [core |-> 0, data |-> 0, reps |-> 0, hist |-> 0, hr |-> <<>>]
NoEntry == [t |-> "none", to |-> "", f |-> 0]
MaxIdx == 3
Fresh == [kind |-> "hdf", user |-> 0, res |-> [i \in 1..MaxIdx |-> NoGroup]]

Entry(s, nm) == IF nm \in DOMAIN s.dir THEN s.dir[nm] ELSE NoEntry
Set(s, nm, e) == [s EXCEPT !.dir = [x \in DOMAIN @ \cup {nm} |-> IF x = nm THEN e ELSE @[x]]]

RECURSIVE Resolve(_, _)
Resolve(s, nm) == IF Entry(s, nm).t = "link" THEN Resolve(s, Entry(s, nm).to) ELSE nm
IsFile(s, nm) == Entry(s, Resolve(s, nm)).t = "file"
FileOf(s, nm) == Entry(s, Resolve(s, nm)).f
Content(s, nm) == s.files[FileOf(s, nm)]
Unlink(s, nm) == Set(s, nm, NoEntry)
Update(s, nm, c) == [s EXCEPT !.files[FileOf(s, nm)] = c]
Create(s, nm, c) ==
  Set([s EXCEPT !.files = Append(@, c)], Resolve(s, nm), [t |-> "file", to |-> "", f |-> Len(s.files) + 1])
Put(s, nm, c) == IF IsFile(s, nm) THEN Update(s, nm, c) ELSE Create(s, nm, c)

\* ------------------------------------------------------------ the optimiser
\* it removes the name given for the result only if asked to, and never the data
Deletes(s, op) == op.del /\ IsFile(s, op.res) /\ FileOf(s, op.res) # FileOf(s, op.data)
Cleared(s, op) == IF Deletes(s, op) THEN Unlink(s, op.res) ELSE s
\* a request which is refused without touching anything
Refused(s, op) == op.bad = "config" \/ ~IsFile(s, op.data)
CanRead(s, op) == LET c == Content(s, op.data) IN c.user # 0 /\ c.kind = IF op.data = "d.csv" THEN "text" ELSE "hdf"
\* and one which cannot be carried out
CanOpt(s, op) ==
  /\ ~Refused(s, op) /\ op.bad = "" /\ CanRead(s, op)
  /\ LET c == Cleared(s, op) IN
       IF IsFile(c, op.res) THEN Content(c, op.res).kind = "hdf"
       ELSE Entry(c, op.res).t # "link" \* HDF5 makes no file through a link to nowhere
AfterOpt(s, op, g) ==
  LET c == Cleared(s, op)
      f == IF IsFile(c, op.res) THEN Content(c, op.res) ELSE Fresh
  IN Put(c, op.res, [f EXCEPT !.res[op.idx] = g])
\* the result holds the data and all repetitions
Complete(s, op, g) == /\ g.core # 0
                      /\ g.data = Content(s, op.data).user
                      /\ g.reps = op.n
OldGroup(s, op) == LET c == Cleared(s, op) IN IF IsFile(c, op.res) THEN Content(c, op.res).res[op.idx] ELSE NoGroup

\* ------------------------------------------------------------ the histogrammer
Plot(nm, plots) == plots[nm]
CanHist(s, op) == /\ op.bad = "" /\ IsFile(s, op.res) /\ Content(s, op.res).kind = "hdf"
                  /\ Content(s, op.res).res[op.idx].reps > 0
\* the ranges requested hold all repetitions, ranges requested before remain
Ranges(g, op) == [i \in 1..MaxOf({op.h, Len(g.hr)}) |-> IF i <= op.h THEN g.reps ELSE g.hr[i]]
\* h: the histograms made, p: the plot
AfterHist(s, op, h, p, plots) ==
  LET g == Content(s, op.res).res[op.idx]
      r == Update(s, op.res, [Content(s, op.res) EXCEPT !.res[op.idx] = [g EXCEPT !.hist = h, !.hr = Ranges(g, op)]])
  IN Create(Unlink(r, plots[op.res]), plots[op.res], [Fresh EXCEPT !.kind = "plot", !.user = p])

\* ------------------------------------------------------------ comparing directories
Names(s) == {nm \in DOMAIN s.dir : s.dir[nm].t # "none"}
SameFiles(s, x) ==
  /\ Names(s) = Names(x)
  /\ \A a \in Names(s) :
       /\ s.dir[a].t = x.dir[a].t /\ s.dir[a].to = x.dir[a].to
       /\ s.dir[a].t = "file" =>
            /\ s.files[s.dir[a].f] = x.files[x.dir[a].f]
            /\ \A b \in Names(s) : s.dir[b].t = "file" =>
                 ((s.dir[a].f = s.dir[b].f) <=> (x.dir[a].f = x.dir[b].f))
\* the names whose content or kind differs
Differing(s, x) == {nm \in Names(s) \cup Names(x) :
  \/ Entry(s, nm).t # Entry(x, nm).t \/ Entry(s, nm).to # Entry(x, nm).to
  \/ Entry(s, nm).t = "file" /\ s.files[s.dir[nm].f] # x.files[x.dir[nm].f]}
=============================================================================
