-------------------------------- MODULE DijkstraAlg --------------------------------
(* The algorithm, one queue pop per step: stale entries are skipped, a fresh one *)
(* relaxes its edges.  Any entry of least distance may be popped.  All weighted  *)
(* digraphs on N vertices with weights from W.                                   *)
EXTENDS GenLib, Graph
CONSTANTS N, W
VARIABLES wadj, src, dis, q
vars == << wadj, src, dis, q >>
V == 0 .. N - 1
None == -1
Pairs == {p \in V \X V : p[1] # p[2]}
ListOf(f, u) == LET S == {v \in V : v # u /\ f[<< u, v >>] # None}
                    seq == SetToSortSeq(S, <)
                IN [i \in DOMAIN seq |-> << seq[i], f[<< u, seq[i] >>] >>]
Init == /\ \E f \in [Pairs -> W \cup {None}] : wadj = [u \in 1 .. N |-> ListOf(f, u - 1)]
        /\ src \in V /\ dis = [v \in V |-> IF v = src THEN 0 ELSE None] /\ q = {<< 0, src >>}
RelaxAll(d, u) ==
  FoldLeft(LAMBDA acc, e :
      IF acc[1][e[1]] = None \/ acc[1][e[1]] > d + e[2]
      THEN << [acc[1] EXCEPT ![e[1]] = d + e[2]], acc[2] \cup {<< d + e[2], e[1] >>} >> ELSE acc,
    << dis, q \ {<< d, u >>} >>, wadj[u + 1])
Pop == \E x \in {y \in q : \A z \in q : y[1] <= z[1]} :
  /\ IF x[1] # dis[x[2]] THEN q' = q \ {x} /\ dis' = dis
     ELSE LET r == RelaxAll(x[1], x[2]) IN dis' = r[1] /\ q' = r[2]
  /\ UNCHANGED << wadj, src >>
Done == q = {}
Answer(d) == [i \in 1 .. N |-> d[i - 1]]
Asked == q = {<< 0, src >>} /\ \A v \in V \ {src} : dis[v] = None
Next == Pop
Spec == Init /\ [][Next]_vars /\ WF_vars(Pop)
InitEmitted == Asked => Emit([n |-> N], << E("dijkstra", << 0, src, wadj >>, Dist(wadj, src)),
                                           E("dijkstra", << 33, src, wadj >>, Dist(wadj, src)) >>)

Right == Done => Answer(dis) = Walks(wadj, src, N - 1) /\ Answer(dis) = Dist(wadj, src)
\* the certificate used for larger recordings accepts exactly the right answer
\* (all candidate answers for weights 0 and 1; it is enough: larger weights add nothing new)
Certificates ==
  (Asked /\ \A u \in DOMAIN wadj : \A i \in DOMAIN wadj[u] : wadj[u][i][2] <= 1) =>
    LET t == Dist(wadj, src)
    IN \A d \in [1 .. N -> -1 .. N - 1] : DistCertified(wadj, src, d) <=> d = t
\* no tentative distance is below the true one; entries at or below the queue's least are final
Sound == LET t == Dist(wadj, src) IN
  /\ \A v \in V : dis[v] # None => t[v + 1] # None /\ dis[v] >= t[v + 1]
  /\ q # {} => \A v \in V : (dis[v] # None /\ \A x \in q : dis[v] <= x[1]) => dis[v] = t[v + 1]
Terminates == <>Done
=================================================================================
