--------------------------------- MODULE Sparse ---------------------------------
(* A sparse table, as a user sees it: an immutable sequence v and the fold of an *)
(* associative, idempotent operation over any non-empty range.                   *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
\* The operations used: 1 min, 2 max, 3 gcd, 4 and, 5 or, 6 first, 7 last.
Op(kind, x, y) ==
  CASE kind = 1 -> IF x < y THEN x ELSE y
    [] kind = 2 -> IF x > y THEN x ELSE y
    [] kind = 3 -> Gcd(x, y)
    [] kind = 4 -> x & y
    [] kind = 5 -> x | y
    [] kind = 6 -> x
    [] OTHER -> y
\* v[l], ..., v[r-1] (0-based) folded from left to right
Fold(kind, v, l, r) == FoldLeft(LAMBDA x, y : Op(kind, x, y), v[l + 1], SubSeq(v, l + 2, r))
=================================================================================
