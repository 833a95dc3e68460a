------------------------------- MODULE SparseTrace -------------------------------
EXTENDS TraceLib, Sparse
VARIABLES kind, n, v        \* kind 0: the symbolic blocks, v unused
vars == << kind, n, v >>
TraceInit == TraceStart /\ kind = 0 /\ n = 0 /\ v = << >>
InRange(x, y) == 0 <= x /\ x < y /\ y <= n
TraceNext ==
  \/ Call("symbolic") /\ kind' = 0 /\ n' = A(1) /\ v' = << >>
  \/ Call("build") /\ kind' = A(1) /\ n' = Len(A(3)) /\ v' = A(3)
  \/ Call("get") /\ InRange(A(1), A(2)) /\ UNCHANGED vars
     /\ R = (IF kind = 0 THEN << A(1), A(2) >> ELSE << Fold(kind, v, A(1), A(2)), 0 >>)
  \* an empty or reversed range is refused and changes nothing
  \/ Refused("get") /\ ~Above(A(2), A(1)) /\ UNCHANGED vars
  \/ Finished /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l, vars >>
=================================================================================
