---------------------------------- MODULE Tree ----------------------------------
(* Rooted trees on nodes 0..n-1, given by the parent function par (par[root] =   *)
(* root) and the depth function dep, both as sequences shifted by one.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

\* T = [n, root, par, dep, order]: par and dep describe one tree (order lists parents first)
Nodes(T) == 0 .. T.n - 1
Par(T, v) == T.par[v + 1]
Dep(T, v) == T.dep[v + 1]
IsTree(T) ==
  /\ T.n >= 1 /\ T.root \in Nodes(T) /\ Len(T.par) = T.n /\ Len(T.dep) = T.n
  /\ Par(T, T.root) = T.root /\ Dep(T, T.root) = 0
  /\ \A v \in Nodes(T) \ {T.root} : Par(T, v) \in Nodes(T) /\ Dep(T, v) = Dep(T, Par(T, v)) + 1
  /\ Len(T.order) = T.n /\ ToSet(T.order) = Nodes(T)
  /\ \A i \in 1 .. T.n - 1 : Dep(T, T.order[i]) <= Dep(T, T.order[i + 1])
Children(T, u) == {v \in Nodes(T) \ {T.root} : Par(T, v) = u}
\* adj is an adjacency list of exactly this tree, each edge once in both directions
IsAdjacency(T, adj) ==
  /\ Len(adj) = T.n
  /\ FoldLeft(LAMBDA s, x : s + Len(x), 0, adj) = 2 * (T.n - 1)
  /\ (\A v \in Nodes(T) \ {T.root} :
         (\E i \in DOMAIN adj[v + 1] : adj[v + 1][i] = Par(T, v))
         /\ (\E i \in DOMAIN adj[Par(T, v) + 1] : adj[Par(T, v) + 1][i] = v)) = TRUE

RECURSIVE AncDep(_, _, _)
AncDep(T, v, d) == IF Dep(T, v) <= d THEN v ELSE AncDep(T, Par(T, v), d)   \* ancestor of v at depth <= d
IsAnc(T, u, v) == AncDep(T, v, Dep(T, u)) = u
RECURSIVE Lca(_, _, _)
Lca(T, u, v) == IF u = v THEN u
                ELSE IF Dep(T, u) >= Dep(T, v) THEN Lca(T, Par(T, u), v) ELSE Lca(T, u, Par(T, v))
Dist(T, u, v) == Dep(T, u) + Dep(T, v) - 2 * Dep(T, Lca(T, u, v))
\* the nodes of the simple path between u and v
RECURSIVE PathSet(_, _, _)
PathSet(T, u, v) == IF u = v THEN {u}
                    ELSE IF Dep(T, u) >= Dep(T, v) THEN {u} \cup PathSet(T, Par(T, u), v)
                    ELSE {v} \cup PathSet(T, u, Par(T, v))
\* u and everything below it
\* (the second form is the same and quicker for very many nodes and little depth)
Below(T, u) == IF T.n > 5000 THEN {v \in Nodes(T) : IsAnc(T, u, v)} ELSE FoldLeft(LAMBDA S, v : IF v = u \/ (v # T.root /\ Par(T, v) \in S) THEN S \cup {v} ELSE S, {}, T.order)

\* ---- all rooted labelled trees on k nodes, and their adjacency lists (up: ascending)
RECURSIVE DepthIn(_, _, _)
DepthIn(par, v, lim) == IF par[v + 1] = v THEN 0 ELSE IF lim = 0 THEN 99 ELSE 1 + DepthIn(par, par[v + 1], lim - 1)
Trees(k) ==
  { [n |-> k, root |-> rp[1], par |-> rp[2], dep |-> [v \in 1 .. k |-> DepthIn(rp[2], v - 1, k)],
     order |-> SetToSortSeq(0 .. k - 1, LAMBDA x, y : DepthIn(rp[2], x, k) < DepthIn(rp[2], y, k)
                                                      \/ (DepthIn(rp[2], x, k) = DepthIn(rp[2], y, k) /\ x < y))]
    : rp \in { q \in (0 .. k - 1) \X [1 .. k -> 0 .. k - 1] :
        /\ q[2][q[1] + 1] = q[1]
        /\ \A v \in 0 .. k - 1 : (q[2][v + 1] = v => v = q[1]) /\ DepthIn(q[2], v, k) < k } }
Neigh(T, up, u) ==
  LET S == Children(T, u) \cup (IF u = T.root THEN {} ELSE {Par(T, u)})
  IN IF up THEN SetToSortSeq(S, <) ELSE SetToSortSeq(S, >)
=================================================================================
