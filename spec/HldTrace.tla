--------------------------------- MODULE HldTrace ---------------------------------
EXTENDS TraceLib, NodeArray
VARIABLE made
tvars == << ep, l, nvars, made >>
TraceInit == /\ TraceStart /\ fam = 0 /\ made = FALSE /\ a = << >>
             /\ T = Meta /\ Assert(IsTree(Meta), "driver: not a tree")
Still == UNCHANGED << nvars, made >>
Do(op) == Call(op) /\ made /\ UNCHANGED made
Out(u) == Beyond(u, T.n)
TraceNext ==
  \/ Call("new") /\ A(2) = T.root /\ IsAdjacency(T, A(3)) /\ Made(A(1), T, [i \in 1 .. T.n |-> << >>]) /\ made' = TRUE
  \/ Call("init") /\ A(2) = T.root /\ IsAdjacency(T, A(3)) /\ Len(A(4)) = T.n /\ Made(A(1), T, A(4)) /\ made' = TRUE
  \/ Do("set") /\ Set(A(1), A(2))
  \/ Do("get") /\ A(1) \in Nodes(T) /\ ProdIs({A(1)}, R)
  \/ Do("at") /\ A(1) \in Nodes(T) /\ ProdIs({A(1)}, R)
  \/ Do("all") /\ ProdIs(Nodes(T), R)
  \/ Do("path") /\ ApplyPath(A(1), A(2), A(3))
  \/ Do("sub") /\ ApplySubtree(A(1), A(2))
  \/ Do("path_prod") /\ {A(1), A(2)} \subseteq Nodes(T) /\ ProdIs(PathSet(T, A(1), A(2)), R)
  \/ Do("sub_prod") /\ A(1) \in Nodes(T) /\ ProdIs(Below(T, A(1)), R)
  \* out-of-contract requests are refused and change nothing
  \/ Refused("new") /\ Beyond(A(2), Len(A(3))) /\ Still
  \/ Refused("init") /\ (Beyond(A(2), Len(A(3))) \/ Len(A(3)) # Len(A(4))) /\ Still
  \/ Refused("lift") /\ Beyond(A(1), Len(A(2))) /\ Still
  \/ (Refused("set") \/ Refused("get") \/ Refused("sub") \/ Refused("sub_prod")) /\ Out(A(1)) /\ Still
  \/ (Refused("path_prod") \/ Refused("path")) /\ (Out(A(1)) \/ Out(A(2))) /\ Still
  \/ Finished /\ Still
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=================================================================================
