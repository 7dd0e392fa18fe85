-------------------------------- MODULE Nexus --------------------------------
(* Where the data to fit are read from.

   An HDF5 file is
     groups    sequence of [path, default, signal, unc, axes, iaxes, mask]: path is a sequence of
               names (<<>>: the root), default likewise (<<>>: no such attribute), signal, mask: a
               name ("": none), unc: <<label, name>> (the attribute <label>_uncertainty) or <<>>,
               axes, iaxes: sequences of labels (<<>>: none)
     datasets  sequence of [path, name, id, unc]: unc is its attribute "uncertainties"
   Explicit paths: sequence of <<key, path, name>>.
   A text file is a sequence of lines, each a sequence of fields; fields are [t |-> "n", v |-> number]
   or [t |-> "s", v |-> name]; blank lines are empty sequences.                                    *)
EXTENDS Util

None == 0
Group(file, path) == CHOOSE g \in Range(file.groups) : g.path = path
HasGroup(file, path) == \E g \in Range(file.groups) : g.path = path
Id(file, path, name) ==
  LET D == {d \in Range(file.datasets) : d.path = path /\ d.name = name}
  IN IF D = {} THEN None ELSE (CHOOSE d \in D : TRUE).id
DataAttr(file, path, name) ==
  LET D == {d \in Range(file.datasets) : d.path = path /\ d.name = name}
  IN IF D = {} THEN "" ELSE (CHOOSE d \in D : TRUE).unc

RECURSIVE Follow(_, _)
Follow(file, path) ==
  LET g == Group(file, path)
  IN IF g.default = <<>> THEN path
     ELSE IF ~HasGroup(file, path \o g.default) THEN <<"?">>
     ELSE Follow(file, path \o g.default)

QNames == <<"q", "Q">>
Axes(g) == IF g.axes # <<>> THEN g.axes ELSE g.iaxes
QLabel(g) == IF "q" \in Range(Axes(g)) THEN "q" ELSE IF "Q" \in Range(Axes(g)) THEN "Q" ELSE ""
UncLabel(file, g) == IF g.unc # <<>> /\ g.unc[1] = g.signal THEN g.unc[2] ELSE DataAttr(file, g.path, g.signal)

Refusal == [ok |-> FALSE]
\* S = 0: a thousandth of the intensity; M = 0: no mask
ByDefaults(file) ==
  LET at == Follow(file, <<>>)
  IN IF at = <<"?">> THEN Refusal
     ELSE LET g == Group(file, at)
              I == IF g.signal = "" THEN None ELSE Id(file, at, g.signal)
              Q == IF QLabel(g) = "" THEN None ELSE Id(file, at, QLabel(g))
              u == IF g.signal = "" THEN "" ELSE UncLabel(file, g)
              S == IF u = "" THEN None ELSE Id(file, at, u)
              M == IF g.mask = "" THEN None ELSE Id(file, at, g.mask)
          IN IF I = None \/ Q = None \/ (u # "" /\ S = None) \/ (g.mask # "" /\ M = None) THEN Refusal
             ELSE [ok |-> TRUE, I |-> I, Q |-> Q, S |-> S, M |-> M]
ByPaths(file, paths) ==
  LET Key(k) == {i \in DOMAIN paths : paths[i][1] = k}
      Get(k) == IF Key(k) = {} THEN None ELSE LET p == paths[CHOOSE i \in Key(k) : TRUE] IN Id(file, p[2], p[3])
  IN IF \E k \in {"Q", "I", "ISigma"} : Get(k) = None THEN Refusal
     ELSE IF Key("mask") # {} /\ Get("mask") = None THEN Refusal
     ELSE [ok |-> TRUE, I |-> Get("I"), Q |-> Get("Q"), S |-> Get("ISigma"), M |-> Get("mask")]
Resolve(file, paths) == IF paths = <<>> THEN ByDefaults(file) ELSE ByPaths(file, paths)

-----------------------------------------------------------------------------
\* Text. opts: skip (lines), head (the first line then has the names), names, comment (a line starting
\* with such a field is left out)
Columns == <<"Q", "I", "ISigma">>
NotBlank(l) == l # <<>>
IsComment(l, opts) == opts.comment # "" /\ l # <<>> /\ l[1].t = "s" /\ l[1].v = opts.comment
Table(lines, opts) ==
  LET body == SelectSeq(SubSeq(lines, opts.skip + 1, Len(lines)), LAMBDA l : NotBlank(l) /\ ~IsComment(l, opts))
      names == IF opts.head THEN [k \in DOMAIN body[1] |-> body[1][k].v] ELSE opts.names
      rows == IF opts.head THEN Tail(body) ELSE body
      Col(c) == CHOOSE k \in DOMAIN names : names[k] = c
  IN [k \in DOMAIN rows |-> [c \in {"Q", "I", "ISigma"} |-> rows[k][Col(c)].v]]
\* the numbers of a PDH file are between its fifth line and the XML part
PdhTable(lines) ==
  LET X == {k \in DOMAIN lines : lines[k] # <<>> /\ lines[k][1].t = "s" /\ lines[k][1].v = "<?xml"}
  IN Table(SubSeq(lines, 6, MinOf(X) - 1), [skip |-> 0, head |-> FALSE, names |-> Columns, comment |-> ""])
=============================================================================
