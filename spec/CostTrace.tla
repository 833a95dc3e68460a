--------------------------------- MODULE CostTrace --------------------------------
(* Recorded calls answer with the number of user-supplied operations they made;  *)
(* each must stay within its budget.                                             *)
EXTENDS TraceLib, Costs
VARIABLES kind, n      \* the structure in use; its size (for heaps, a function)
Idle == UNCHANGED << kind, n >>
Within(b) == Len(R) = 1 /\ R[1] >= 0 /\ R[1] <= b
Make(op, k, b(_)) == Call(op) /\ kind' = k /\ n' = A(1) /\ Within(b(A(1)))
On(k, op, b) == kind = k /\ Call(op) /\ Idle /\ Within(b)
TraceInit == TraceStart /\ kind = "none" /\ n = 0
Least(x, y) == IF x < y THEN x ELSE y
TraceNext ==
  \/ Make("seg", "seg", SegBuild) \/ Make("seg_new", "seg", SegBuild)
  \/ On("seg", "set", SegSet(n)) \/ On("seg", "get", SegGet(n)) \/ On("seg", "all", SegProd(n))
  \/ On("seg", "prod", SegProd(n)) \/ On("seg", "right", SegSearch(n)) \/ On("seg", "left", SegSearch(n))
  \/ Make("lazy", "lazy", LazyBuild) \/ Make("lazy_new", "lazy", LazyBuild)
  \/ On("lazy", "set", LazyPoint(n)) \/ On("lazy", "get", LazyPoint(n)) \/ On("lazy", "apply", LazyPoint(n))
  \/ On("lazy", "all", LazyAll(n))
  \/ On("lazy", "prod", LazyRange(n)) \/ On("lazy", "range", LazyRange(n))
  \/ On("lazy", "right", LazySearch(n)) \/ On("lazy", "left", LazySearch(n))
  \/ Make("hld", "hld", LAMBDA k : 2 * LazyBuild(k))
  \/ On("hld", "set", LazyPoint(n)) \/ On("hld", "get", LazyPoint(n))
  \/ On("hld", "tree", LazyRange(n)) \/ On("hld", "tree_apply", LazyRange(n))
  \/ On("hld", "path", PathCost(n)) \/ On("hld", "path_apply", PathCost(n))
  \/ Make("fen", "fen", FenBuild) \/ Make("fen_new", "fen", FenBuild)
  \/ On("fen", "add", FenStep(n)) \/ On("fen", "pref", FenStep(n)) \/ On("fen", "sum", 2 * FenStep(n))
  \/ On("fen", "search", 2 * FenStep(n)) \/ On("fen", "point", 2 * FenStep(n))
  \/ Make("sparse", "sparse", SparseBuild) \/ On("sparse", "get", SparseGet(n))
  \/ Call("kmp") /\ Idle /\ Within(TableCost(A(1)))
  \/ Call("z") /\ Idle /\ Within(TableCost(A(1)))
  \/ Call("heaps") /\ kind' = "heaps" /\ n' = [h \in 0 .. A(1) - 1 |-> 0] /\ R = << 0 >>
  \/ kind = "heaps" /\ kind' = kind
     /\ \/ Call("push") /\ n' = [n EXCEPT ![A(1)] = @ + 1] /\ Within(HeapStep(n[A(1)]))
        \/ Call("pushes") /\ n' = [n EXCEPT ![A(1)] = @ + A(4)] /\ Within(A(4) * HeapStep(n'[A(1)]))
        \/ Call("pop") /\ n' = [n EXCEPT ![A(1)] = IF @ = 0 THEN 0 ELSE @ - 1] /\ Within(HeapStep(n[A(1)]))
        \/ Call("pops") /\ n' = [n EXCEPT ![A(1)] = @ - Least(@, A(2))] /\ Within(A(2) * HeapStep(n[A(1)]))
        \/ Call("peek") /\ n' = n /\ Within(4)
        \/ Call("append") /\ n' = [n EXCEPT ![A(1)] = @ + n[A(2)], ![A(2)] = 0]
                          /\ Within(HeapAppend(n[A(1)], n[A(2)]))
        \/ Call("sorted") /\ n' = [n EXCEPT ![A(1)] = 0] /\ Within(HeapSorted(n[A(1)]))
  \/ Finished /\ Idle
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l, kind, n >>
===================================================================================
