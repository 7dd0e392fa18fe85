-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by the specifications.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL SX == INSTANCE SequencesExt

SumSeq(s) == SX!FoldLeft(LAMBDA a, b : a + b, 0, s)

RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> \/ b = <<>> THEN 0 ELSE Head(a) * Head(b) + Dot(Tail(a), Tail(b))

AddVec(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
SubVec(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE SetSum(_, _)
SetSum(S, f) == IF S = {} THEN 0
                ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SetSum(S \ {x}, f)

\* the elements of a set of integers in increasing order
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Sorted(S \ {m})

\* the indices 1..n for which Test holds, in order
Indices(n, Test(_)) == SelectSeq([i \in 1..n |-> i], Test)

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

\* a labelled clause: the set {label} if it does not hold
Must(cond, label) == IF cond THEN {} ELSE {label}
=============================================================================
