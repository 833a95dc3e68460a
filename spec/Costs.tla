---------------------------------- MODULE Costs ----------------------------------
(* What each call may cost, in operations supplied by the user: products of the  *)
(* monoid, mappings and compositions of updates, predicate calls, comparisons,   *)
(* equality tests and additions.  L is the number of binary digits of the size.  *)
EXTENDS Integers
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN 0 ELSE 1 + Digits(n \div 2)
LogOf(n) == Digits(n) + 1

\* plain segment tree of n elements
SegBuild(n) == 4 * n + 16
SegSet(n) == 4 * LogOf(n) + 16
SegGet(n) == 2
SegProd(n) == 6 * LogOf(n) + 16
SegSearch(n) == 8 * LogOf(n) + 16
\* lazy segment tree
LazyBuild(n) == 4 * n + 16
LazyPoint(n) == 12 * LogOf(n) + 16
LazyAll(n) == 2
LazyRange(n) == 24 * LogOf(n) + 32
LazySearch(n) == 20 * LogOf(n) + 32
\* heavy-light decomposition: at most LogOf(n) runs on a path
PathCost(n) == LogOf(n) * (20 * LogOf(n) + 32)
\* Fenwick tree
FenBuild(n) == 4 * n + 16
FenStep(n) == 4 * LogOf(n) + 16
\* heap
HeapStep(n) == 6 * LogOf(n) + 16
HeapAppend(n, m) == 8 * (n + m) + m * HeapStep(n + m)
HeapSorted(n) == n * (4 * LogOf(n) + 8) + 16
\* sparse table
SparseBuild(n) == 2 * n * LogOf(n) + 16
SparseGet(n) == 3
\* prefix function and Z-function
TableCost(n) == 6 * n + 16
===================================================================================
