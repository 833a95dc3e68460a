------------------------------ MODULE FenwickTrace ------------------------------
EXTENDS TraceLib, Fenwick

TraceInit == TraceStart /\ a = << >>
R1 == Len(R) = 1

TraceNext ==
  \/ Call("new") /\ Created(A(2))
  \/ Call("from") /\ From(A(2))
  \/ Call("add") /\ Add(A(1), A(2))
  \/ Call("pref") /\ R1 /\ PrefQuery(A(1), R[1])
  \/ Call("sum") /\ R1 /\ SumQuery(A(1), A(2), R[1])
  \/ Call("search") /\ R1 /\ Point(LAMBDA x : x < A(1), R[1])
  \/ Call("below") /\ R1 /\ Point(LAMBDA x : x < A(1), R[1])
  \/ Call("above") /\ R1 /\ Point(LAMBDA x : x > A(1), R[1])
  \/ Call("among") /\ R1 /\ LET S == ToSet(A(1)) IN Point(LAMBDA x : x \in S, R[1])
  \/ Call("always") /\ R1 /\ Point(LAMBDA x : TRUE, R[1])
  \/ Call("never") /\ R1 /\ Point(LAMBDA x : FALSE, R[1])
  \/ Finished /\ UNCHANGED a
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l, a >>
=================================================================================
