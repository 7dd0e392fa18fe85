-------------------------------- MODULE MCState --------------------------------
(* All short histories of storing, loading and continuing. Objects 1 and 2 have the same
   configuration, 3 another one; places X/a, X/b and Y/a.                                      *)
EXTENDS State, Json, IOUtils
VARIABLES objs, file, log
vars == <<objs, file, log>>
Places3 == {<<"X", "a">>, <<"X", "b">>, <<"Y", "a">>}
Depth == IF IOEnv.TIER = "thorough" THEN 6 ELSE 5
Init == /\ objs = <<[shared |-> 1, own |-> 11], [shared |-> 1, own |-> 12], [shared |-> 2, own |-> 13]>>
        /\ file = NoFile
        /\ log = <<>>
More == Len(log) < Depth
DoStore == \E o \in DOMAIN objs, p \in Places3 :
  /\ More
  /\ o <= 3 \/ o = Len(objs)
  /\ file' = StoreAt(file, p[1], p[2], objs[o])
  /\ log' = Append(log, [op |-> "store", o |-> o, r |-> p[1], rep |-> p[2]])
  /\ UNCHANGED objs
\* by the history alone: the last store to the place (own part) or to the result (shared part)
LastAt(lg, Test(_)) == LET k == {k \in DOMAIN lg : lg[k].op = "store" /\ Test(lg[k])}
                       IN IF k = {} THEN 0 ELSE MaxOf(k)
DoLoad == \E p \in Places3 :
  /\ More /\ Stored(file, p[1], p[2])
  /\ LET j == LastAt(log, LAMBDA e : e.r = p[1] /\ e.rep = p[2])
     IN Intact(file, p[1], p[2], objs[log[j].o].shared)
  /\ objs' = Append(objs, Restored(file, p[1], p[2]))
  /\ log' = Append(log, [op |-> "load", o |-> Len(objs) + 1, r |-> p[1], rep |-> p[2]])
  /\ UNCHANGED file
\* a loaded object is optimised further: its own part becomes something new
DoContinue == /\ More
              /\ log # <<>> /\ log[Len(log)].op = "load"
              /\ objs' = [objs EXCEPT ![Len(objs)].own = 100 + Len(log)]
              /\ log' = Append(log, [op |-> "continue", o |-> Len(objs)])
              /\ UNCHANGED file
Next == DoStore \/ DoLoad \/ DoContinue

RECURSIVE OwnOf(_, _), SharedOf(_, _)
OwnOf(lg, o) ==
  LET c == {k \in DOMAIN lg : lg[k].op = "continue" /\ lg[k].o = o}
      d == {k \in DOMAIN lg : lg[k].op = "load" /\ lg[k].o = o}
  IN IF c # {} THEN 100 + MaxOf(c) - 1
     ELSE IF d = {} THEN 10 + o
     ELSE LET k == MaxOf(d)
              b == SubSeq(lg, 1, k - 1)
              j == LastAt(b, LAMBDA e : e.r = lg[k].r /\ e.rep = lg[k].rep)
          IN OwnOf(SubSeq(b, 1, j - 1), b[j].o)
SharedOf(lg, o) ==
  LET d == {k \in DOMAIN lg : lg[k].op = "load" /\ lg[k].o = o}
  IN IF d = {} THEN (IF o = 3 THEN 2 ELSE 1)
     ELSE LET k == MaxOf(d)
              b == SubSeq(lg, 1, k - 1)
              j == LastAt(b, LAMBDA e : e.r = lg[k].r)
          IN SharedOf(SubSeq(b, 1, j - 1), b[j].o)
Faithful == \A o \in DOMAIN objs : objs[o] = [shared |-> SharedOf(log, o), own |-> OwnOf(log, o)]
Emit == Len(log) = Depth /\ log[Depth].op # "store" => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
