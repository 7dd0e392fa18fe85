------------------------------ MODULE MCConfig ------------------------------
(* Several optimisers made and run in any order, on several data sets *)
EXTENDS Config, IOUtils
VARIABLES hats, results
vars == <<hats, results>>
Few == IF IOEnv.TIER = "thorough" THEN {"convCrit", "nContrib"} ELSE {"convCrit"}
Givens == UNION {[S -> 1..2] : S \in SUBSET {"convCrit", "nContrib"}}
Made == UNION {[S -> {1}] : S \in SUBSET Few}
LimitSets == {<<[par |-> "radius", v |-> 0]>>, <<[par |-> "radius", v |-> 1]>>}
HatSet == {[given |-> g, nRep |-> r, nCores |-> c, seed |-> s, limits |-> l] :
           g \in Givens, r \in {-1, 1, 2}, c \in {-1, 2}, s \in {-2, 7}, l \in LimitSets}
NoHat == [given |-> [o \in {} |-> 0], nRep |-> 0, nCores |-> 0, seed |-> 0, limits |-> <<>>]
Init == hats = <<NoHat, NoHat>> /\ results = [i \in 1..2 |-> [h |-> NoHat, d |-> 0]]
DoMake == \E k \in 1..2 : \E h \in {[given |-> g, nRep |-> 2, nCores |-> 2, seed |-> s, limits |-> l] :
             g \in Made, s \in {-2, 7}, l \in LimitSets} :
  hats' = [hats EXCEPT ![k] = h] /\ UNCHANGED results
DoRun == \E k \in 1..2, d \in 1..2, i \in 1..2 :
  hats[k] # NoHat /\ results' = [results EXCEPT ![i] = [h |-> hats[k], d |-> d]] /\ UNCHANGED hats
Next == DoMake \/ DoRun
Spec == Init /\ [][Next]_vars
\* what is in force is what was given, or the default
Faithful == \A i \in 1..2 : results[i].h # NoHat =>
  LET h == results[i].h run == RunOf(h, results[i].d) IN
  /\ DOMAIN run = 0..(Reps(h) - 1)
  /\ \A r \in DOMAIN run : /\ \A o \in Options : run[r].vals[o] = IF o \in DOMAIN h.given THEN h.given[o] ELSE 0
                           /\ \A k \in DOMAIN run[r].limits : run[r].limits[k].d = IF h.limits[k].v = 0 THEN results[i].d ELSE 0
  /\ \A r, q \in DOMAIN run : r # q /\ run[r].seed # -2 => run[r].seed # run[q].seed
\* running changes no optimiser, making one changes no result
RunKeeps == [][results' # results => hats' = hats]_vars
ASSUME \A h \in HatSet : Cores(h, 8) >= 1 /\ Cores(h, 8) <= Reps(h) /\ (h.nCores > 0 => Cores(h, 8) <= h.nCores)
=============================================================================
