-------------------------------- MODULE LiftTrace --------------------------------
(* Ancestor queries (binary lifting) on one tree per episode.                    *)
EXTENDS TraceLib, Tree
T == Meta
TraceInit == TraceStart /\ Assert(IsTree(Meta), "driver: not a tree")
R1 == Len(R) = 1
\* the published tables describe the tree
Tables(pa, dep, tin, tout) ==
  /\ Len(pa) = T.n /\ dep = T.dep /\ Len(tin) = T.n /\ Len(tout) = T.n
  /\ \A v \in Nodes(T) : Len(pa[v + 1]) >= 1 /\ pa[v + 1][1] = Par(T, v)
  \* 2^k-th ancestors, staying at the root
  /\ \A v \in Nodes(T) : \A k \in 2 .. Len(pa[v + 1]) : pa[v + 1][k] = pa[pa[v + 1][k - 1] + 1][k - 1]
  \* the entry/exit intervals hold exactly the descendants
  /\ T.n <= 40 => \A u, v \in Nodes(T) : IsAnc(T, u, v) <=> (tin[u + 1] <= tin[v + 1] /\ tin[v + 1] < tout[u + 1])
  /\ \A v \in Nodes(T) \ {T.root} : LET p == Par(T, v) IN
       tin[p + 1] < tin[v + 1] /\ tin[v + 1] < tout[v + 1] /\ tout[v + 1] <= tout[p + 1]
TraceNext ==
  \/ Call("lift") /\ A(1) = T.root /\ IsAdjacency(T, A(2))
  \/ Call("tables") /\ Tables(R[1], R[2], R[3], R[4]) = TRUE
  \/ Call("anc") /\ R = Bool(IsAnc(T, A(1), A(2)))
  \/ Call("lca") /\ R1 /\ R[1] = Lca(T, A(1), A(2))
  \/ Call("dis") /\ R1 /\ R[1] = Dist(T, A(1), A(2))
  \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l >>
=================================================================================
