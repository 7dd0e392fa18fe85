------------------------------ MODULE MCNexus ------------------------------
(* A reader going through a file step by step, for all small layouts: it follows one default after
   the other and looks up intensity, uncertainty, mask and Q in any order.                       *)
EXTENDS Nexus, IOUtils
VARIABLES file, at, found, todo
vars == <<file, at, found, todo>>
Th == IOEnv.TIER = "thorough"
G(path, default, signal, unc, axes, iaxes, mask) ==
  [path |-> path, default |-> default, signal |-> signal, unc |-> unc, axes |-> axes, iaxes |-> iaxes, mask |-> mask]
D(path, name, id, unc) == [path |-> path, name |-> name, id |-> id, unc |-> unc]
Plain(path, default) == G(path, default, "", <<>>, <<>>, <<>>, "")
Defaults == {<<>>, <<"a">>, <<"b">>, <<"a", "d">>}
Uncs == {<<>>, <<"I", "E">>, <<"J", "E">>, <<"I", "?">>}
AxesOf == {<<>>, <<"Q">>, <<"q">>, <<"x", "Q">>, <<"x">>}
Signals == {"", "I", "J", "?"}
Init ==
  /\ \E d0 \in Defaults, da \in {<<>>, <<"d">>}, s \in Signals, u \in Uncs, ax \in AxesOf, ix \in {<<>>, <<"q">>},
        m \in {"", "M", "?"}, du \in {"", "F"}, sb \in (IF Th THEN Signals ELSE {"J"}) :
       LET Sets(p, o) == <<D(p, "I", o + 1, du), D(p, "J", o + 2, ""), D(p, "E", o + 3, ""), D(p, "F", o + 4, ""),
                           D(p, "M", o + 5, ""), D(p, "q", o + 6, ""), D(p, "Q", o + 7, "")>>
       IN file = [groups |-> <<Plain(<<>>, d0), Plain(<<"a">>, da), G(<<"a", "d">>, <<>>, s, u, ax, ix, m),
                               G(<<"b">>, <<>>, sb, <<>>, <<"Q">>, <<>>, "")>>,
                  datasets |-> Sets(<<"a", "d">>, 10) \o Sets(<<"b">>, 20)]
  /\ at = <<>> /\ found = [k \in {"I", "S", "Q", "M"} |-> -1] /\ todo = {"I", "S", "Q", "M"}
Here == Group(file, at)
DoFollow == todo # {} /\ Here.default # <<>> /\ HasGroup(file, at \o Here.default)
            /\ at' = at \o Here.default /\ UNCHANGED <<file, found, todo>>
There == Here.default = <<>>
Find(k, v) == There /\ k \in todo /\ found' = [found EXCEPT ![k] = v] /\ todo' = todo \ {k} /\ UNCHANGED <<file, at>>
DoSignal == Here.signal # "" /\ Find("I", Id(file, at, Here.signal))
DoUncertainty == /\ "I" \notin todo
                 /\ IF Here.unc # <<>> /\ Here.unc[1] = Here.signal THEN Find("S", Id(file, at, Here.unc[2]))
                    ELSE IF DataAttr(file, at, Here.signal) # "" THEN Find("S", Id(file, at, DataAttr(file, at, Here.signal)))
                    ELSE Find("S", -2)
DoMask == There /\ Find("M", IF Here.mask = "" THEN -2 ELSE Id(file, at, Here.mask))
DoQ == /\ \E q \in Range(QNames) : /\ IF Here.axes # <<>> THEN q \in Range(Here.axes) ELSE q \in Range(Here.iaxes)
                                   /\ Find("Q", Id(file, at, q))
Next == DoFollow \/ DoSignal \/ DoUncertainty \/ DoMask \/ DoQ
Complete == todo = {} /\ \A k \in DOMAIN found : found[k] # None
Opt(v) == IF v = -2 THEN None ELSE v
ReadIsIt == Complete => ByDefaults(file) = [ok |-> TRUE, I |-> found["I"], Q |-> found["Q"], S |-> Opt(found["S"]), M |-> Opt(found["M"])]
\* what cannot be completed is refused, and explicit paths lead to the same data
StuckIsRefused == ~ENABLED Next => (ByDefaults(file).ok <=> Complete)
NoneIsRefused == ~ByDefaults(file).ok => ~Complete
PathsAgree == Complete /\ found["S"] # -2 =>
  LET ds == {d \in Range(file.datasets) : d.id = found["I"]}
      Where(id) == LET d == CHOOSE d \in Range(file.datasets) : d.id = id IN <<d.path, d.name>>
      P(k, id) == <<k>> \o Where(id)
      all == <<P("Q", found["Q"]), P("I", found["I"]), P("ISigma", found["S"])>>
  IN ByPaths(file, IF found["M"] = -2 THEN all ELSE Append(all, P("mask", found["M"]))) = ByDefaults(file)
=============================================================================
