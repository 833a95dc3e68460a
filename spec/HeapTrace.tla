-------------------------------- MODULE HeapTrace --------------------------------
EXTENDS TraceLib, Heap, Functions
TraceInit == TraceStart /\ hp = [h \in 0 .. Meta.hs - 1 |-> {}]
TraceNext ==
  \/ Call("new") /\ Created(A(1))
  \/ Call("with_capacity") /\ Created(A(1))
  \/ Call("push") /\ Push(A(1), A(2), A(3))
  \/ Call("pushes") /\ Pushes(A(1), A(2))
  \/ Call("pop") /\ Pop(A(1), R)
  \/ Call("peek") /\ Peek(A(1), R)
  \/ Call("len") /\ Len(R) = 1 /\ Length(A(1), R[1])
  \/ Call("empty") /\ R = Bool(hp[A(1)] = {}) /\ UNCHANGED hp
  \/ Call("append") /\ Append_(A(1), A(2))
  \/ Call("popkey") /\ \E x \in hp[A(1)] \cup {<< >>} : Pop(A(1), IF x = << >> THEN x ELSE << x >>)
                                                     /\ R = IF x = << >> THEN x ELSE << x[1] >>
  \/ Call("sortedkeys") /\ R = Reverse(SortSeq([i \in 1 .. Len(R) |-> R[i]], <))
                        /\ \A k \in Range(R) \cup {x[1] : x \in hp[A(1)]} :
                             Cardinality({i \in DOMAIN R : R[i] = k}) = Cardinality({x \in hp[A(1)] : x[1] = k})
                        /\ Created(A(1))
  \/ Call("clear") /\ Clear(A(1))
  \/ Call("sorted") /\ Sorted(A(1), R)
  \/ Finished /\ UNCHANGED hp
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l, hp >>
=================================================================================
