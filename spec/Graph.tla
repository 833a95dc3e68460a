---------------------------------- MODULE Graph ----------------------------------
(* Directed graphs given by adjacency lists on 0..n-1: reachability, strongly    *)
(* connected components, shortest distances.                                     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Verts(adj) == 0 .. Len(adj) - 1
\* ---- reachability and components
Succ(adj, S) == UNION {ToSet(adj[u + 1]) : u \in S}
RECURSIVE Closure(_, _, _)
Closure(adj, fr, seen) == LET new == Succ(adj, fr) \ seen IN IF new = {} THEN seen ELSE Closure(adj, new, seen \cup new)
Reach(adj) == [u \in Verts(adj) |-> Closure(adj, {u}, {u})]
\* cnt components numbered by col: mutual reachability, numbers 0..cnt-1, edges never go up
IsScc(adj, cnt, col) ==
  LET rc == Reach(adj) c == [u \in Verts(adj) |-> col[u + 1]] IN
  /\ Len(col) = Len(adj)
  /\ {c[u] : u \in Verts(adj)} = 0 .. cnt - 1
  /\ \A u \in Verts(adj) : \A v \in Verts(adj) : (c[u] = c[v]) <=> (v \in rc[u] /\ u \in rc[v])
  /\ \A u \in Verts(adj) : \A v \in ToSet(adj[u + 1]) : c[u] >= c[v]

\* The same with a certificate instead of the whole reachability relation, for larger graphs: no edge
\* goes up, and inside each component its least vertex reaches every vertex and is reached by it.
Back(adj) == FoldLeft(LAMBDA f, u : FoldLeft(LAMBDA h, v : [h EXCEPT ![v + 1] = Append(@, u - 1)], f, adj[u]),
                      [u \in 1 .. Len(adj) |-> << >>], [u \in 1 .. Len(adj) |-> u])
Inside(adj, col) == [u \in 1 .. Len(adj) |-> SelectSeq(adj[u], LAMBDA v : col[v + 1] = col[u])]
SccCertified(adj, cnt, col) ==
  /\ Len(col) = Len(adj)
  /\ {col[u] : u \in DOMAIN col} = 0 .. cnt - 1
  /\ \A u \in DOMAIN adj : \A i \in DOMAIN adj[u] : col[u] >= col[adj[u][i] + 1]
  /\ LET first == FoldLeft(LAMBDA f, u : IF f[col[u] + 1] = -1 THEN [f EXCEPT ![col[u] + 1] = u - 1] ELSE f,
                           [k \in 1 .. cnt |-> -1], [u \in 1 .. Len(adj) |-> u])
         roots == ToSet(first)
         fw == Inside(adj, col)
     IN Closure(fw, roots, roots) = Verts(adj) /\ Closure(Back(fw), roots, roots) = Verts(adj)

\* A chain of cycles described by two numbers: n vertices in blocks of w (the last one may be
\* shorter), each block a cycle in ascending order, the last vertex of a block leading to the next
\* block.  The blocks are the components, and their order is total: the first has the top number.
BlocksAnswer(n, w, cnt, col) ==
  /\ cnt = (n + w - 1) \div w /\ Len(col) = n
  /\ \A v \in 1 .. n : col[v] = cnt - 1 - (v - 1) \div w

\* ---- shortest distances; wadj[u] lists << v, w >>; -1: unreachable
Relax(wadj, d) ==
  FoldLeft(LAMBDA f, u : IF f[u] = -1 THEN f ELSE
      FoldLeft(LAMBDA h, e : IF h[e[1] + 1] = -1 \/ h[u] + e[2] < h[e[1] + 1]
                             THEN [h EXCEPT ![e[1] + 1] = h[u] + e[2]] ELSE h, f, wadj[u]),
    d, [u \in 1 .. Len(wadj) |-> u])
RECURSIVE Settle(_, _, _)
Settle(wadj, d, k) == LET d2 == Relax(wadj, d) IN IF d2 = d \/ k = 0 THEN d ELSE Settle(wadj, d2, k - 1)
Dist(wadj, s) == Settle(wadj, [u \in 1 .. Len(wadj) |-> IF u = s + 1 THEN 0 ELSE -1], Len(wadj) + 1)
\* A certificate for larger graphs: no edge improves a distance, and every reached vertex is reached
\* from the source over edges that make up exactly its distance.
DistCertified(wadj, s, d) ==
  /\ Len(d) = Len(wadj) /\ d[s + 1] = 0 /\ \A u \in DOMAIN d : d[u] >= -1
  /\ \A u \in DOMAIN d : d[u] # -1 => \A i \in DOMAIN wadj[u] :
       LET v == wadj[u][i][1] + 1 IN d[v] # -1 /\ d[v] <= d[u] + wadj[u][i][2]
  /\ LET tight == [u \in DOMAIN d |-> IF d[u] = -1 THEN << >> ELSE
                     LET es == SelectSeq(wadj[u], LAMBDA e : d[e[1] + 1] = d[u] + e[2])
                     IN [i \in DOMAIN es |-> es[i][1]]]
     IN Closure(tight, {s}, {s}) = {v \in Verts(wadj) : d[v + 1] # -1}
\* A road of n vertices described by three numbers: v to v + 1 costs w, v to v + 2 costs x; the source
\* is s and there is no way back.
RoadAnswer(n, s, w, x, d) ==
  /\ Len(d) = n
  /\ \A v \in 1 .. n :
       LET k == v - 1 - s
       IN d[v] = IF k < 0 THEN -1 ELSE IF x >= 2 * w THEN k * w ELSE (k \div 2) * x + (k % 2) * w
\* by definition: the least weight of a walk with at most k edges
RECURSIVE Walks(_, _, _)
Walks(wadj, s, k) ==
  IF k = 0 THEN [u \in 1 .. Len(wadj) |-> IF u = s + 1 THEN 0 ELSE -1]
  ELSE LET p == Walks(wadj, s, k - 1)
           arcs == UNION {{<< u, wadj[u][i][1] + 1, wadj[u][i][2] >> : i \in DOMAIN wadj[u]} : u \in 1 .. Len(wadj)}
       IN [v \in 1 .. Len(wadj) |->
            LET c == {p[q[1]] + q[3] : q \in {x \in arcs : x[2] = v /\ p[x[1]] # -1}}
                     \cup (IF p[v] = -1 THEN {} ELSE {p[v]})
            IN IF c = {} THEN -1 ELSE Min(c)]
=================================================================================
