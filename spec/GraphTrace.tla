-------------------------------- MODULE GraphTrace --------------------------------
(* Components and shortest paths are pure functions of the graph.                *)
EXTENDS TraceLib, Graph
TraceInit == TraceStart
TraceNext ==
  \/ Call("scc") /\ Len(R) = 2
     /\ (IF Len(A(1)) <= 80 THEN IsScc(A(1), R[1], R[2]) ELSE SccCertified(A(1), R[1], R[2])) = TRUE
  \/ Call("scc_blocks") /\ Len(R) = 2 /\ BlocksAnswer(A(1), A(2), R[1], R[2]) = TRUE
  \/ Call("dijkstra") /\ (IF Len(A(3)) <= 100 THEN R = Dist(A(3), A(2)) ELSE DistCertified(A(3), A(2), R)) = TRUE
  \/ Call("road") /\ RoadAnswer(A(2), A(3), A(4), A(5), R) = TRUE
  \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l >>
=================================================================================
