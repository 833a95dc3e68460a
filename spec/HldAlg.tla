---------------------------------- MODULE HldAlg ----------------------------------
(* The algorithm: nodes are laid out in one array so that every heavy path and   *)
(* every subtree is contiguous; a path operation climbs from head to head,       *)
(* touching one range per heavy path.  Checked to refine NodeArray for every     *)
(* rooted labelled tree of the given sizes.                                      *)
EXTENDS GenLib, Tree
CONSTANTS Sizes, Muts,
          Invalid    \* TRUE: in every state every request out of contract is made before observing
VARIABLES T, asc,
          D,        \* the decomposition: [lay, pos, size, heavy, head], fixed once built
          arr,      \* arr[p + 1]: value at array position p
          mut, hist
vars == << T, asc, D, arr, mut, hist >>

Adj == [u \in 1 .. T.n |-> Neigh(T, asc, u - 1)]
\* ---- building the decomposition of tree t with adjacency adj
Decompose(t, adj) ==
  LET size == [u \in 1 .. t.n |-> Cardinality(Below(t, u - 1))]
      kids(u) == SelectSeq(adj[u + 1], LAMBDA v : u = t.root \/ v # Par(t, u))
      \* the first child of maximal size, -1 for a leaf
      heavy == [u \in 1 .. t.n |->
        FoldLeft(LAMBDA h, v : IF h = -1 \/ size[v + 1] > size[h + 1] THEN v ELSE h, -1, kids(u - 1))]
      head == FoldLeft(LAMBDA f, u : [f EXCEPT ![u + 1] =
                IF u = t.root \/ heavy[Par(t, u) + 1] # u THEN u ELSE f[Par(t, u) + 1]],
                [u \in 1 .. t.n |-> 0], t.order)
      RECURSIVE layout(_)
      layout(u) == LET h == heavy[u + 1] IN
        IF h = -1 THEN << u >>
        ELSE << u >> \o layout(h)
             \o FoldLeft(LAMBDA s, v : IF v = h THEN s ELSE s \o layout(v), << >>, kids(u))
      lay == layout(t.root)
  IN [lay |-> lay, size |-> size, heavy |-> heavy, head |-> head,
      pos |-> [u \in 1 .. t.n |-> (CHOOSE i \in DOMAIN lay : lay[i] = u - 1) - 1]]
PosOf(u) == D.pos[u + 1]
HeadOf(u) == D.head[u + 1]
\* ---- the ranges touched by a path operation and by a subtree operation
RECURSIVE Ranges(_, _)
Ranges(u, v) ==
  IF HeadOf(u) = HeadOf(v)
  THEN LET p == PosOf(u) q == PosOf(v) IN << IF p <= q THEN << p, q + 1 >> ELSE << q, p + 1 >> >>
  ELSE LET x == IF Dep(T, HeadOf(u)) < Dep(T, HeadOf(v)) THEN v ELSE u
           y == IF x = u THEN v ELSE u
       IN << << PosOf(HeadOf(x)), PosOf(x) + 1 >> >> \o Ranges(Par(T, HeadOf(x)), y)
SubRange(u) == << PosOf(u), PosOf(u) + D.size[u + 1] >>

ArrayOf(ar) == [u \in 1 .. T.n |-> ar[PosOf(u - 1) + 1]]
A == INSTANCE NodeArray WITH fam <- 0, a <- ArrayOf(arr)

Meta(t) == t
Init == \E k \in Sizes : \E t \in Trees(k) : \E up \in BOOLEAN :
  /\ T = t /\ asc = up /\ mut = 0
  /\ LET adj == [u \in 1 .. k |-> Neigh(t, up, u - 1)] IN
     /\ D = Decompose(t, adj)
     /\ \/ /\ arr = [p \in 1 .. k |-> << << D.lay[p] + 1 >> >>]
           /\ hist = << E("init", << 0, t.root, adj, [v \in 1 .. k |-> << << v >> >>] >>, << >>) >>
        \/ /\ arr = [p \in 1 .. k |-> << >>]
           /\ hist = << E("new", << 0, t.root, adj >>, << >>) >>

Observe(ar) ==
  LET k == T.n
      av == ArrayOf(ar)
      shown(S) == A!Seen(FoldLeft(LAMBDA w, v : IF v \in S THEN w \o av[v + 1] ELSE w, << >>, [i \in 1 .. k |-> i - 1]))
  IN
  << E("all", << 0 >>, shown(Nodes(T))) >>
  \o [i \in 1 .. k * k |-> LET u == (i - 1) \div k v == (i - 1) % k IN
        E("path_prod", << u, v >>, shown(PathSet(T, u, v)))]
  \o [i \in 1 .. k |-> E("sub_prod", << i - 1 >>, shown(Below(T, i - 1)))]
  \o [i \in 1 .. k |-> E("get", << i - 1 >>, shown({i - 1}))]
  \o [i \in 1 .. k |-> E("at", << i - 1 >>, shown({i - 1}))]
InRange(rs, p) == \E i \in DOMAIN rs : rs[i][1] <= p /\ p < rs[i][2]
MapPos(rs, f) == arr' = [p \in DOMAIN arr |-> IF InRange(rs, p - 1)
                                               THEN [i \in DOMAIN arr[p] |-> arr[p][i] \o f] ELSE arr[p]]
Upd == << 20 + mut >>
Fresh == << << 10 + mut >> >>
Bads == LET k == T.n IN
  OverAll(Tops(k), LAMBDA x :
    << Refuses("new", << 0, x, Adj >>), Refuses("init", << 0, x, Adj, [v \in 1 .. k |-> << << v >> >>] >>),
       Refuses("set", << x, << << 5 >> >> >>), Refuses("get", << x >>), Refuses("sub", << x, << 9 >> >>),
       Refuses("sub_prod", << x >>), Refuses("path", << x, x, << 9 >> >>), Refuses("path_prod", << x, x >>) >>
    \o OverAll(Span(k - 1), LAMBDA u :
         << Refuses("path", << x, u, << 9 >> >>), Refuses("path", << u, x, << 9 >> >>),
            Refuses("path_prod", << x, u >>), Refuses("path_prod", << u, x >>) >>))
  \o << Refuses("init", << 0, T.root, Adj, [v \in 1 .. k - 1 |-> << << v >> >>] >>),
        Refuses("init", << 0, T.root, Adj, [v \in 1 .. k + 1 |-> << << v >> >>] >>) >>
Log(e) == mut < Muts /\ mut' = mut + 1 /\ UNCHANGED << T, asc, D >>
          /\ hist' = Append(hist, e) /\ Emit(T, hist' \o (IF Invalid THEN Bads ELSE << >>) \o Observe(arr'))
Next == \E u \in Nodes(T) :
  \/ arr' = [arr EXCEPT ![PosOf(u) + 1] = Fresh] /\ Log(E("set", << u, Fresh >>, << >>))
  \/ MapPos(<< SubRange(u) >>, Upd) /\ Log(E("sub", << u, Upd >>, << >>))
  \/ \E v \in Nodes(T) : MapPos(Ranges(u, v), Upd) /\ Log(E("path", << u, v, Upd >>, << >>))
Spec == Init /\ [][Next]_vars
View == << T, asc, arr, mut >>

GoodTree == IsTree(T) /\ IsAdjacency(T, Adj)
LayoutRight ==
  mut = 0 => LET lay == D.lay IN
  /\ Len(lay) = T.n /\ ToSet(lay) = Nodes(T)
  /\ \A u \in Nodes(T) : {lay[i + 1] : i \in SubRange(u)[1] .. SubRange(u)[2] - 1} = Below(T, u)
  /\ \A u, v \in Nodes(T) : LET rs == Ranges(u, v) IN
       /\ UNION {{lay[p + 1] : p \in rs[i][1] .. rs[i][2] - 1} : i \in DOMAIN rs} = PathSet(T, u, v)
       /\ FoldLeft(LAMBDA s, x : s + x[2] - x[1], 0, rs) = Cardinality(PathSet(T, u, v))
       /\ 2 ^ (Len(rs) - 1) <= 2 * T.n * T.n       \* logarithmically many ranges
AbsNext == \E u \in Nodes(T) : \/ A!Set(u, Fresh) \/ A!ApplySubtree(u, Upd)
                               \/ \E v \in Nodes(T) : A!ApplyPath(u, v, Upd)
Abs == [][AbsNext]_<< T, arr >>
=================================================================================
