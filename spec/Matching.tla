-------------------------------- MODULE Matching --------------------------------
(* Bipartite matching: left vertices 0..nl-1, right vertices 0..nr-1, a growing  *)
(* set of edges; solve answers the size of a maximum matching.                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

VARIABLES nl, nr, es, match       \* match: a matching in es, kept maximum at every solve
mvars == << nl, nr, es, match >>

IsMatching(M, E) == M \subseteq E /\ \A x, y \in M : x # y => x[1] # y[1] /\ x[2] # y[2]
Nbrs(E, S) == {e[2] : e \in {f \in E : f[1] \in S}}
\* Konig's formula, by enumeration
MaxSize(E, k) == Min({k - Cardinality(S) + Cardinality(Nbrs(E, S)) : S \in SUBSET (0 .. k - 1)})

\* ---- growing a matching along alternating paths, with a vertex cover as the proof of optimality
FreeL(M) == {u \in 0 .. nl - 1 : \A e \in M : e[1] # u}
MateR(M, v) == {e[1] : e \in {f \in M : f[2] = v}}
\* One breadth-first layer: lf reached left vertices of the last layer; pred: right vertex -> left vertex.
RECURSIVE Search(_, _, _)
Search(M, lf, pred) ==
  LET new == {e \in es : e[1] \in lf /\ e[2] \notin DOMAIN pred}
      rs == {e[2] : e \in new}
      p2 == [v \in rs \cup DOMAIN pred |->
               IF v \in DOMAIN pred THEN pred[v] ELSE (CHOOSE e \in new : e[2] = v)[1]]
      free == {v \in rs : MateR(M, v) = {}}
  IN IF rs = {} THEN [found |-> -1, pred |-> pred]
     ELSE IF free # {} THEN [found |-> CHOOSE v \in free : TRUE, pred |-> p2]
     ELSE Search(M, UNION {MateR(M, v) : v \in rs}, p2)
RECURSIVE Flip(_, _, _)
Flip(M, v, pred) ==
  LET u == pred[v]
      old == {e \in M : e[1] = u}
      M2 == (M \ old) \cup {<< u, v >>}
  IN IF old = {} THEN M2 ELSE Flip(M2, (CHOOSE e \in old : TRUE)[2], pred)
Empty == [x \in {} |-> 0]
RECURSIVE Grow(_)
Grow(M) == LET s == Search(M, FreeL(M), Empty) IN IF s.found = -1 THEN M ELSE Grow(Flip(M, s.found, s.pred))
\* After the last search: unreached left and reached right vertices cover every edge.
Certified(M) ==
  LET reachedR == DOMAIN Search(M, FreeL(M), Empty).pred
      reachedL == FreeL(M) \cup UNION {MateR(M, v) : v \in reachedR}
      cover == {<< "l", u >> : u \in (0 .. nl - 1) \ reachedL} \cup {<< "r", v >> : v \in reachedR}
  IN /\ IsMatching(M, es)
     /\ \A e \in es : << "l", e[1] >> \in cover \/ << "r", e[2] >> \in cover
     /\ Cardinality(cover) = Cardinality(M)

\* A proof of optimality given from outside: a matching and a vertex cover of the same size.
Proof(W, CL, CR, k) ==
  LET M == ToSet(W) IN
  /\ M \subseteq es /\ Cardinality(M) = k
  /\ Cardinality({e[1] : e \in M}) = k /\ Cardinality({e[2] : e \in M}) = k
  /\ \A e \in es : e[1] \in CL \/ e[2] \in CR
  /\ Cardinality(CL) + Cardinality(CR) = k
ProvedSolve(W, CL, CR, k) == Proof(W, CL, CR, k) = TRUE /\ match' = match /\ UNCHANGED << nl, nr, es >>

Created(n, m) == nl' = n /\ nr' = m /\ es' = {} /\ match' = {}
Edge(u, v) == u \in 0 .. nl - 1 /\ v \in 0 .. nr - 1 /\ es' = es \cup {<< u, v >>} /\ UNCHANGED << nl, nr, match >>
Edges(list) ==
  /\ (\A i \in DOMAIN list : list[i][1] \in 0 .. nl - 1 /\ list[i][2] \in 0 .. nr - 1) = TRUE
  /\ es' = es \cup {<< list[i][1], list[i][2] >> : i \in DOMAIN list} /\ UNCHANGED << nl, nr, match >>
Solve(k) == /\ match' = Grow(match) /\ UNCHANGED << nl, nr, es >>
            /\ k = Cardinality(match')
=================================================================================
