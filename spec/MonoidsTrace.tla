------------------------------- MODULE MonoidsTrace -------------------------------
EXTENDS TraceLib, Monoids
VARIABLE idle
TraceNext ==
  /\ UNCHANGED idle
  /\ \/ Call("identity") /\ R = << Neutral(A(1), A(2)) >>
     \/ Call("combine") /\ Defined(A(1), A(2), A(3), A(4)) /\ R = << Combine(A(2), A(3), A(4)) >>
     \* the identity on either side of a value
     \/ Call("around") /\ R = << A(3), A(3) >>
     \/ \E c \in {"zero", "one", "min", "max"} : Call(c) /\ R = << Constant(A(1), c) >>
     \/ Call("own_identity") /\ R = << OwnNeutral(A(2)) >>
     \/ Call("own") /\ Len(R) = 1 /\ R[1] \in OwnCombine(A(2), A(3), A(4))
     \/ Finished
TraceSpec == TraceStart /\ idle = 0 /\ [][TraceNext]_<< ep, l, idle >>
====================================================================================
