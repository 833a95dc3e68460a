------------------------------ MODULE MatchingTrace ------------------------------
EXTENDS TraceLib, Matching
VARIABLE solved
TraceInit == TraceStart /\ nl = 0 /\ nr = 0 /\ es = {} /\ match = {} /\ solved = FALSE
TraceNext ==
  \/ Call("new") /\ Created(A(1), A(2)) /\ solved' = FALSE
  \/ Call("edge") /\ Edge(A(1), A(2)) /\ solved' = FALSE
  \/ Call("solve") /\ Len(R) = 1 /\ Solve(R[1]) /\ solved' = TRUE
  \* larger graphs come with a proof of the answer: a matching and the two halves of a cover
  \/ Call("edges") /\ Edges(A(1)) /\ solved' = FALSE
  \/ Call("solve_proved") /\ Len(R) = 1 /\ solved' = FALSE
     /\ \E CL \in {ToSet(A(2))} : \E CR \in {ToSet(A(3))} :
          Assert(Proof(A(1), CL, CR, Len(A(1))), "driver: wrong proof") /\ ProvedSolve(A(1), CL, CR, R[1])
  \/ Finished /\ UNCHANGED << mvars, solved >>
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l, mvars, solved >>
\* the reference answer is proved by a vertex cover of the same size
Optimal == (solved /\ l <= Len(Evs) + 1) => Certified(match)
=================================================================================
