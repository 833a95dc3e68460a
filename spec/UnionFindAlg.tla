------------------------------ MODULE UnionFindAlg ------------------------------
(* The algorithm: a parent forest with path compression on every find and        *)
(* linking of the smaller tree under the larger one's root.  It is checked to    *)
(* refine UnionFind (PROPERTY Abs); each of its transitions, reached through a   *)
(* shortest history, is printed as a script with the expected results.           *)
EXTENDS GenLib, FiniteSets, FiniteSetsExt
CONSTANTS N, Gen,
          Invalid    \* TRUE: in every state every request out of contract is made before observing
VARIABLES fa, sz, hist
vars == << fa, sz, hist >>
Elem == 0 .. N - 1

RECURSIVE Root(_, _)
Root(f, i) == IF f[i] = i THEN i ELSE Root(f, f[i])
RECURSIVE OnPath(_, _)
OnPath(f, i) == IF f[i] = i THEN {i} ELSE {i} \cup OnPath(f, f[i])
Compress(f, i) == LET r == Root(f, i) P == OnPath(f, i) IN [j \in DOMAIN f |-> IF j \in P THEN r ELSE f[j]]

Lab == [i \in Elem |-> Min({j \in Elem : Root(fa, j) = Root(fa, i)})]
Rep == [i \in Elem |-> Root(fa, i)]
A == INSTANCE UnionFind WITH n <- N, lab <- Lab, rep <- Rep
Abs == A!USpec

Init == fa = [i \in Elem |-> i] /\ sz = [i \in Elem |-> 1] /\ hist = << E("new", << N >>, << >>) >>

Join(x, y) ==
  LET f1 == Compress(fa, x)
      f2 == Compress(f1, y)
      rx == Root(f2, x)
      ry == Root(f2, y)
      small == IF sz[rx] > sz[ry] THEN ry ELSE rx
      large == IF sz[rx] > sz[ry] THEN rx ELSE ry
  IN /\ IF rx = ry THEN fa' = f2 /\ sz' = sz
        ELSE /\ fa' = [f2 EXCEPT ![small] = large]
             /\ sz' = [sz EXCEPT ![large] = sz[rx] + sz[ry]]
     /\ hist' = Append(hist, E("join", << x, y >>, Flag(rx # ry)))

Find(x) == /\ fa' = Compress(fa, x) /\ sz' = sz
           /\ hist' = Append(hist, E("size", << x >>, << Cardinality({j \in Elem : Lab[j] = Lab[x]}) >>))

\* Everything the public queries can show in a state.
Observe(labs) ==
  [k \in 1 .. N * N |-> LET x == (k - 1) \div N  y == (k - 1) % N
                        IN E("same", << x, y >>, Flag(labs[x] = labs[y]))]
  \o [k \in 1 .. N |-> E("size", << k - 1 >>, << Cardinality({j \in Elem : labs[j] = labs[k - 1]}) >>)]

Bads == IF ~Invalid THEN << >> ELSE
  OverAll(Tops(N), LAMBDA x :
    << Refuses("join", << x, x >>), Refuses("same", << x, x >>), Refuses("find", << x >>), Refuses("size", << x >>) >>
    \o OverAll(Span(N - 1), LAMBDA u : << Refuses("join", << x, u >>), Refuses("join", << u, x >>),
                                       Refuses("same", << x, u >>), Refuses("same", << u, x >>) >>))
Next == /\ \/ \E x, y \in Elem : Join(x, y)
           \/ \E x \in Elem : Find(x)
        /\ Gen => Emit([n |-> N], hist' \o Bads \o Observe(Lab'))

Spec == Init /\ [][Next]_vars
View == << fa, sz >>

Forest == \A i \in Elem : fa[i] \in Elem /\ Cardinality(OnPath(fa, i)) <= N
SizesRight == \A i \in Elem : fa[i] = i => sz[i] = Cardinality({j \in Elem : Lab[j] = Lab[i]})
PartitionInv == A!Partition
\* linking by size keeps every tree within logarithmic height
Shallow == \A i \in Elem : 2 ^ (Cardinality(OnPath(fa, i)) - 1) <= sz[Root(fa, i)]
=================================================================================
