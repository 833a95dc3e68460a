-------------------------------- MODULE Fenwick --------------------------------
(* A Fenwick tree, as a user sees it: a plain array a[1..n] of numbers.          *)
EXTENDS Integers, Sequences, SequencesExt

VARIABLE a

N_ == Len(a)
Plus(x, y) == x + y
Pref(k) == FoldLeft(Plus, 0, SubSeq(a, 1, k))
\* The array of prefix sums a[1], a[1]+a[2], ...
Sums == FoldLeft(LAMBDA acc, x : Append(acc, x + (IF acc = << >> THEN 0 ELSE acc[Len(acc)])), << >>, a)
\* P holds on exactly the first PointOf(P) entries of the prefix sums.
Partitions(P(_)) == LET s == Sums IN \A i, j \in DOMAIN s : (i < j /\ P(s[j])) => P(s[i])
PointOf(P(_)) ==
  FoldLeft(LAMBDA c, x : << c[1] + x, IF P(c[1] + x) THEN c[2] + 1 ELSE c[2] >>, << 0, 0 >>, a)[2]

Created(k) == a' = [i \in 1 .. k |-> 0]
From(v) == a' = v
Add(p, v) == p \in 0 .. N_ - 1 /\ a' = [a EXCEPT ![p + 1] = @ + v]
PrefQuery(k, r) == k \in 0 .. N_ /\ r = Pref(k) /\ UNCHANGED a
SumQuery(x, y, r) ==
  x \in 0 .. N_ /\ y \in x .. N_ /\ r = FoldLeft(Plus, 0, SubSeq(a, x + 1, y)) /\ UNCHANGED a
Point(P(_), r) == r = PointOf(P) /\ UNCHANGED a

FNext(Vals) == \E p \in 0 .. N_ - 1, v \in Vals : Add(p, v)
================================================================================
