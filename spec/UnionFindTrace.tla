----------------------------- MODULE UnionFindTrace -----------------------------
EXTENDS TraceLib, UnionFind

TraceInit == TraceStart /\ n = 0 /\ lab = << >> /\ rep = << >>

TraceNext ==
  \/ Call("new") /\ New(A(1))
  \/ Call("join") /\ \E m \in BOOLEAN : R = Bool(m) /\ JoinAs(A(1), A(2), m, Undet)
  \* start, step, count: the elements start, start + step, .. (modulo n), each joined with the next
  \/ Call("chain") /\ \E xs \in {[k \in 1 .. A(3) |-> (A(1) + (k - 1) * A(2)) % n]} : JoinAll(xs, R[1])
  \/ Call("same") /\ \E b \in BOOLEAN : R = Bool(b) /\ Same(A(1), A(2), b)
  \/ Call("find") /\ Find(A(1), R[1])
  \/ Call("size") /\ Size(A(1), R[1])
  \/ Call("groups") /\ Groups(R)
  \* an element out of range is refused and changes nothing
  \/ (Refused("join") \/ Refused("same")) /\ (Beyond(A(1), n) \/ Beyond(A(2), n)) /\ UNCHANGED uvars
  \/ (Refused("find") \/ Refused("size")) /\ Beyond(A(1), n) /\ UNCHANGED uvars
  \/ Finished /\ UNCHANGED uvars
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l, uvars >>
=================================================================================
