------------------------------ MODULE MCCli ------------------------------
(* All sequences of tool invocations in a directory with data files, links to them, and other files *)
EXTENDS Cli, Json, IOUtils
VARIABLES s, log
vars == <<s, log>>
Thorough == IOEnv.TIER = "thorough"
Depth == IF Thorough THEN 4 ELSE 3
Text(u) == [Fresh EXCEPT !.kind = "text", !.user = u]
Plots == ("d.csv" :> "d.pdf") @@ ("d.nxs" :> "d.pdf") @@ ("r.nxs" :> "r.pdf") @@ ("s.nxs" :> "s.pdf")
         @@ ("k.v2.nxs" :> "k.v2.pdf") @@ ("o.1.nxs" :> "o.1.pdf") @@ ("u.txt" :> "u.pdf")
File(n) == [t |-> "file", to |-> "", f |-> n]
Link(nm) == [t |-> "link", to |-> nm, f |-> 0]
Start == [dir |-> ("d.csv" :> File(1)) @@ ("d.nxs" :> File(2)) @@ ("k.v2.nxs" :> File(2)) @@ ("s.nxs" :> Link("d.nxs"))
                  @@ ("o.1.nxs" :> Link("r.nxs")) @@ ("u.txt" :> File(3)) @@ ("r.pdf" :> File(4)) @@ ("u.pdf" :> File(5)),
          files |-> <<Text(1), [Fresh EXCEPT !.user = 2], Text(3), [Text(4) EXCEPT !.kind = "plot"], [Text(5) EXCEPT !.kind = "plot"]>>]

Op(tool, data, res, del, idx, n, h, bad) ==
  [tool |-> tool, data |-> data, res |-> res, del |-> del, idx |-> idx, n |-> n, h |-> h, bad |-> bad]
Data == {"d.csv", "d.nxs", "s.nxs"}
Res == {"d.csv", "d.nxs", "r.nxs", "s.nxs", "k.v2.nxs", "o.1.nxs", "u.txt"}
Opts == {Op("opt", d, r, del, i, n, 0, b) : d \in Data, r \in Res, del \in BOOLEAN, i \in 1..2, n \in {2}, b \in {""}}
Hists == {Op("hist", "", r, FALSE, i, 0, 1, "") : r \in Res, i \in 1..2}
Boths == {Op("both", d, r, del, 1, 2, 1, "") : d \in Data, r \in Res, del \in BOOLEAN}
Bads == {Op("opt", "d.csv", r, TRUE, 1, 2, 0, b) : r \in {"r.nxs", "d.csv"}, b \in {"config", "read", "run"}}
        \cup {Op("hist", "", r, FALSE, 1, 0, 1, b) : r \in {"r.nxs", "d.nxs"}, b \in {"config", "range"}}
Ops == Opts \cup Hists \cup Boths \cup Bads

Step == Len(log) + 1
Group(x, op) == [NoGroup EXCEPT !.core = Step, !.data = Content(x, op.data).user, !.reps = op.n]
Opted(x, op) == IF CanOpt(x, op) THEN AfterOpt(x, op, Group(x, op)) ELSE IF Refused(x, op) THEN x ELSE Cleared(x, op)
Histed(x, op) == IF CanHist(x, op) THEN AfterHist(x, op, Step, 100 + Step, Plots) ELSE x
DoOpt == \E op \in Ops : op.tool = "opt" /\ Len(log) < Depth /\ s' = Opted(s, op) /\ log' = Append(log, op)
DoHist == \E op \in Ops : op.tool = "hist" /\ Len(log) < Depth /\ s' = Histed(s, op) /\ log' = Append(log, op)
DoBoth == \E op \in Ops : op.tool = "both" /\ Len(log) < Depth /\ log' = Append(log, op)
                          /\ s' = IF CanOpt(s, op) THEN Histed(Opted(s, op), op) ELSE Opted(s, op)
Init == s = Start /\ log = <<>>
Next == DoOpt \/ DoHist \/ DoBoth
Spec == Init /\ [][Next]_vars

Last == log'[Len(log')]
\* user content is lost only by a deletion which was asked for, of that very name and not of the data
UserKept == [][\A nm \in Names(s) :
  LET old == s.dir[nm] new == Entry(s', nm) IN
  \/ new = old /\ (old.t = "file" => s.files[old.f].user = s'.files[old.f].user)
  \/ Last.tool # "hist" /\ Last.del /\ nm = Last.res /\ FileOf(s, nm) # FileOf(s, Last.data)
  \/ Last.tool # "opt" /\ nm = Plots[Last.res]]_vars
\* the data stay, whatever happens
DataKept == [][Last.tool # "hist" /\ IsFile(s, Last.data) =>
  /\ IsFile(s', Last.data) /\ FileOf(s', Last.data) = FileOf(s, Last.data)
  /\ Content(s', Last.data).user = Content(s, Last.data).user]_vars
\* results under other indices stay in their files
OthersKept == [][\A n \in DOMAIN s.files : \A i \in 1..MaxIdx : i # Last.idx => s'.files[n].res[i] = s.files[n].res[i]]_vars
\* only the result file and the plot change
OnlyResult == [][LET df == Differing(s, s') IN
  \A nm \in df : \/ nm = Plots[Last.res] \/ nm = Last.res \/ Resolve(s', nm) = Resolve(s', Last.res)
                 \/ IsFile(s', nm) /\ IsFile(s', Last.res) /\ FileOf(s', nm) = FileOf(s', Last.res)]_vars
\* what was optimised can be histogrammed, histogramming leaves what was optimised
Usable == [][Last.tool = "opt" /\ CanOpt(s, Last) => CanHist(s', [Last EXCEPT !.h = 1])]_vars
HistReads == [][Last.tool = "hist" => \A n \in DOMAIN s.files : \A i \in 1..MaxIdx :
  LET a == s.files[n].res[i] b == s'.files[n].res[i] IN a.core = b.core /\ a.data = b.data /\ a.reps = b.reps]_vars
\* the state only (histories with the same outcome are explored once)
View == <<s, Len(log)>>
OnlyOps == Len(log) = 0
EmitOps == Len(log) = 0 => PrintT("@@" \o ToJson([ops |-> Ops, plots |-> Plots]))
=============================================================================
