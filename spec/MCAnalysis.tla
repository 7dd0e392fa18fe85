------------------------------ MODULE MCAnalysis ------------------------------
(* MODE=hist: all histories of histogramming and optimising anew, with two result indices.
   MODE=bins: in small worlds every contribution inside is counted once, for all contributions.   *)
EXTENDS Analysis, Json, IOUtils
VARIABLES file, log, world
vars == <<file, log, world>>
Depth == IF IOEnv.TIER = "thorough" THEN 5 ELSE 4
Req == << <<[key |-> 0], [key |-> 1]>>, <<[key |-> 0]>>, <<[key |-> 1], [key |-> 2]>> >>

Lims == {<<1, 4>>, <<2, 9>>, <<0, 3>>}
Worlds == {[pow |-> <<p>>, lim |-> <<l>>] : p \in BOOLEAN, l \in Lims}
Ranges == {g \in [key : {0}, p : {1}, auto : BOOLEAN, lo : {1, 2}, hi : {3, 6}, n : 1..4, log : BOOLEAN] :
             g.auto => g.lo = 1 /\ g.hi = 3}
Legal(x) == x.g.log /\ ~x.w.pow[1] => Lo(x.w, x.g) > 0
Worlds2 == IF IOEnv.MODE = "bins"
           THEN {x \in [w : Worlds, g : Ranges, pset : [1..2 -> {<<v>> : v \in 0..9}]] : Legal(x)}
           ELSE {0}
Init == /\ world \in Worlds2
        /\ file = [res |-> <<1, 2>>, hist |-> <<[k \in {} |-> 0], [k \in {} |-> 0]>>]
        /\ log = <<>>
More == IOEnv.MODE = "hist" /\ Len(log) < Depth /\ world' = world
DoHist == \E i \in {1, 2}, q \in DOMAIN Req, st \in BOOLEAN :
  /\ More
  /\ file' = IF st THEN StoreHist(file, i, Req[q]) ELSE file
  /\ log' = Append(log, [op |-> "hist", idx |-> i, q |-> q, store |-> st])
DoCut == \E i \in {1, 2} :
  /\ More
  /\ file' = CutHist(file, i, Req[1])
  /\ log' = Append(log, [op |-> "cut", idx |-> i, q |-> 1, store |-> TRUE])
DoRerun == \E i \in {1, 2}, r \in {1, 3} :
  /\ More /\ file.res[i] # r
  /\ file' = Rerun(file, i, r)
  /\ log' = Append(log, [op |-> "rerun", idx |-> i, res |-> r])
Next == DoHist \/ DoCut \/ DoRerun

\* by the history alone
ResAt(i, n) == LET k == {k \in 1..n : log[k].op = "rerun" /\ log[k].idx = i}
               IN IF k = {} THEN i ELSE log[MaxOf(k)].res
LatestOnly == \A i \in {1, 2}, key \in 0..2 :
  LET k == {k \in DOMAIN log : log[k].op \in {"hist", "cut"} /\ log[k].idx = i /\ log[k].store
                               /\ \E j \in DOMAIN Req[log[k].q] : Req[log[k].q][j].key = key}
  IN IF k = {} THEN key \notin DOMAIN file.hist[i]
     ELSE file.hist[i][key].res = IF log[MaxOf(k)].op = "cut" THEN 0 ELSE ResAt(i, MaxOf(k))
BinsOK == IOEnv.MODE = "bins" =>
  LET c == Counts(world.w, world.g, world.pset)
      m == Modes(world.w, world.g, world.pset)
  IN /\ SumSeq(c.bins) + SumSeq(c.edges) = m.n
     /\ m.n = Cardinality({i \in 1..2 : Inside(world.w, world.g, world.pset[i])})
     /\ SumSeq(m.c) = 0
     /\ \A i \in 1..2 : Cardinality(OnEdge(world.w, world.g, world.pset[i][1])) <= 1
Emit == IOEnv.MODE = "hist" /\ Len(log) = Depth /\ log[Depth].op = "hist" => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
