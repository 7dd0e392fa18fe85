------------------------------ MODULE MCDataPrep ------------------------------
(* The preparation as a sequence of steps for all small data sets: raw -> clip -> omit, one range
   after the other in any order -> bin.                                                        *)
EXTENDS DataPrep, IOUtils
VARIABLES rows, set, stage, cur, pending
vars == <<rows, set, stage, cur, pending>>
Th == IOEnv.TIER = "thorough"
Row(q, i) == [q |-> q, i |-> i, s |-> 1]
RowSet == {Row(0, 2), Row(1, 3), Row(2, Undef), Row(2, 5), Row(3, 1), Row(4, 7)} \cup (IF Th THEN {Row(8, 2), Row(9, 4)} ELSE {})
Omits == {<<>>, <<<<2, 3>>>>, <<<<1, 2>>, <<3, 4>>>>, <<<<0, 3>>, <<2, 4>>>>}
S(lo, hi, om, n, pw) == [lo |-> lo, hi |-> hi, omit |-> om, nbins |-> n, ieN |-> 1, ieD |-> 10, link |-> "bin", nudge |-> 0, pow |-> pw]
Init ==
  /\ rows \in UNION {[1..n -> RowSet] : n \in 1..(IF Th THEN 4 ELSE 3)}
  /\ set \in {S(r[1], r[2], om, n, pw) : r \in {<<0, 100>>, <<1, 4>>, <<2, 2>>}, om \in Omits, n \in {1, 2, 3}, pw \in BOOLEAN}
  /\ stage = "raw" /\ cur = [k \in 1..Len(rows) |-> k] /\ pending = {}
DoClip ==
  /\ stage = "raw"
  /\ cur' = SelectSeq(cur, LAMBDA k : Defined(rows[k]) /\ InRange(set, rows[k].q))
  /\ stage' = IF cur' = <<>> THEN "refused" ELSE "clip"
  /\ pending' = DOMAIN set.omit
  /\ UNCHANGED <<rows, set>>
DoOmit ==
  /\ stage = "clip"
  /\ \E o \in pending :
       /\ cur' = SelectSeq(cur, LAMBDA k : ~(set.omit[o][1] <= rows[k].q /\ rows[k].q < set.omit[o][2]))
       /\ pending' = pending \ {o}
  /\ UNCHANGED <<rows, set, stage>>
DoBin == stage = "clip" /\ pending = {} /\ stage' = "bin" /\ UNCHANGED <<rows, set, cur, pending>>
Next == DoClip \/ DoOmit \/ DoBin
SelectedIsIt == stage = "bin" => cur = Selected(rows, set)
RefusedIsIt == (stage = "refused" => Refused(rows, set)) /\ (stage = "bin" => ~Refused(rows, set))
\* whichever side points at an edge go to: every positive point is in one bin, all points count
BinsOK == stage = "bin" /\ HasPositive(rows, set) =>
  \A b \in Alternatives(rows, set) :
    LET pos == SelectSeq(cur, LAMBDA k : Positive(set, rows[k].q))
        tot == Stats(rows, set, pos)
    IN /\ Len(b) \in 1..set.nbins
       /\ SumSeq([k \in DOMAIN b |-> b[k].n]) = Len(pos)
       /\ SumSeq([k \in DOMAIN b |-> b[k].sq]) = tot.sq
       /\ SumSeq([k \in DOMAIN b |-> b[k].si]) = tot.si
       /\ \A k \in 1..Len(b) - 1 : b[k].sq * b[k + 1].n < b[k + 1].sq * b[k].n
       /\ \A k \in DOMAIN b : b[k].en * b[k].n * b[k].n >= b[k].n * b[k].ed  \* at least the propagated one, s = 1
=============================================================================
