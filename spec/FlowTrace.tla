-------------------------------- MODULE FlowTrace --------------------------------
EXTENDS TraceLib, Flow
TraceInit == TraceStart /\ n = 0 /\ es = << >> /\ pushed = 0 /\ term = << >>
TraceNext ==
  \/ Call("new") /\ Created(A(2))
  \/ Call("edge") /\ Edge(A(1), A(2), A(3))
  \/ Call("flow") /\ Len(R) = 1 /\ Push(A(1), A(2), R[1])
  \* larger networks come with a proof of the answer: a flow on every edge and a cut
  \/ Call("edges") /\ Edges(A(1))
  \/ Call("flow_proved") /\ Len(R) = 1
     /\ \E side \in {ToSet(A(4))} :
          Assert(Proof(es, n, A(1), A(2), A(3), side, CutCap(es, side)), "driver: wrong proof")
          /\ PushProved(A(1), A(2), A(3), side, R[1])
  \* one chain of A(1) vertices whose capacities repeat A(2): its narrowest edge decides
  \/ Call("chain") /\ UNCHANGED fvars
     /\ LET used == {A(2)[j] : j \in {j \in DOMAIN A(2) : j < A(1)}} IN
        Len(R) = 2 /\ R[1] \in used /\ (\A c \in used : R[1] <= c) /\ R[2] = 0
  \* A(1) copies of a small network between the same two terminals: every copy carries its own maximum
  \/ Call("copies") /\ UNCHANGED fvars
     /\ R = << A(1) * MaxFlow(A(2), A(3), 0, 1), 0 >>
  \* vertices out of range are refused and change nothing
  \/ (Refused("edge") \/ Refused("flow")) /\ (Beyond(A(1), n) \/ Beyond(A(2), n)) /\ UNCHANGED fvars
  \/ Finished /\ UNCHANGED fvars
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l, fvars >>
=================================================================================
