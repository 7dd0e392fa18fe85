---------------------------- MODULE OracleAnalysis ----------------------------
(* In[i]: results (by number), requests (by number, sequences of ranges), log of operations
     hist  idx, q, store      cut (interrupted while storing)  idx, q      rerun  idx, res
   Result 1 is at index 1 and result 2 at index 2 in the beginning. For every histogramming: what
   is reported and the keys of the ranges stored so far for either index.                        *)
EXTENDS Analysis, Json, IOUtils
In0 == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE i
Init == i \in 1..Len(In0)
File0(x) == [res |-> <<1, 2>>, hist |-> <<[k \in {} |-> 0], [k \in {} |-> 0]>>]
Step(x, file, e) ==
  CASE e.op = "rerun" -> Rerun(file, e.idx, e.res)
    [] e.op = "hist" /\ e.store -> StoreHist(file, e.idx, x.requests[e.q])
    [] e.op = "cut" -> CutHist(file, e.idx, x.requests[e.q])
    [] OTHER -> file
RECURSIVE Walk(_, _, _)
Walk(x, file, k) ==
  IF k > Len(x.log) THEN <<>>
  ELSE LET e == x.log[k]
           f == Step(x, file, e)
       IN <<[say |-> IF e.op = "hist" THEN <<Analyse(x.results[file.res[e.idx]], x.requests[e.q])>> ELSE <<>>,
             keys |-> [j \in {1, 2} |-> Sorted(DOMAIN f.hist[j])]]>> \o Walk(x, f, k + 1)
Next == /\ i' = -i
        /\ i > 0
        /\ PrintT("@@" \o ToJson([i |-> i, out |-> Walk(In0[i], File0(0), 1)]))
=============================================================================
