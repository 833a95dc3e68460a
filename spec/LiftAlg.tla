---------------------------------- MODULE LiftAlg ----------------------------------
(* The algorithm, step by step: one depth-first traversal that stamps entry and  *)
(* exit times, sets depths and fills a node's ancestor table from its parent's;  *)
(* then ancestor tests by interval and LCA by descending powers of two.          *)
EXTENDS GenLib, Tree
CONSTANTS Sizes
VARIABLES T, asc, stack, timer, tin, tout, dep, pa
vars == << T, asc, stack, timer, tin, tout, dep, pa >>
None == -1

RECURSIVE Lg(_)
Lg(k) == IF k <= 1 THEN 0 ELSE 1 + Lg(k \div 2)
Adj == [u \in 1 .. T.n |-> Neigh(T, asc, u - 1)]
Level == Lg(T.n) + 1

Init == \E k \in Sizes : \E t \in Trees(k) :
  /\ T = t /\ asc \in BOOLEAN /\ timer = 0
  /\ stack = << << t.root, t.root, 0 >> >>      \* node, parent, next neighbour (0: not entered)
  /\ tin = [v \in 1 .. k |-> None] /\ tout = [v \in 1 .. k |-> None] /\ dep = [v \in 1 .. k |-> 0]
  /\ pa = [v \in 1 .. k |-> [i \in 1 .. Lg(k) + 1 |-> 0]]
Top == stack[Len(stack)]
RECURSIVE Row(_, _, _)
Row(row, i, lv) == IF i > lv THEN row
                   ELSE \* the entry is read from the row under construction when the parent is the node itself
                        LET m == row[i - 1]
                            src == IF m = Top[1] THEN row ELSE pa[m + 1]
                        IN Row(Append(row, src[i - 1]), i + 1, lv)
Enter == /\ stack # << >> /\ Top[3] = 0
         /\ tin' = [tin EXCEPT ![Top[1] + 1] = timer] /\ timer' = timer + 1
         /\ pa' = [pa EXCEPT ![Top[1] + 1] = Row(<< Top[2] >>, 2, Level)]
         /\ stack' = [stack EXCEPT ![Len(stack)][3] = 1]
         /\ UNCHANGED << T, asc, tout, dep >>
Visit == /\ stack # << >> /\ Top[3] >= 1 /\ Top[3] <= Len(Adj[Top[1] + 1])
         /\ LET v == Adj[Top[1] + 1][Top[3]]
                up == [stack EXCEPT ![Len(stack)][3] = @ + 1]
            IN IF v = Top[2] THEN stack' = up /\ dep' = dep
               ELSE /\ stack' = Append(up, << v, Top[1], 0 >>)
                    /\ dep' = [dep EXCEPT ![v + 1] = dep[Top[1] + 1] + 1]
         /\ UNCHANGED << T, asc, timer, tin, tout, pa >>
Leave == /\ stack # << >> /\ Top[3] > Len(Adj[Top[1] + 1])
         /\ tout' = [tout EXCEPT ![Top[1] + 1] = timer]
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ UNCHANGED << T, asc, timer, tin, dep, pa >>
Done == stack = << >>

AncAlg(u, v) == tin[v + 1] >= tin[u + 1] /\ tin[v + 1] < tout[u + 1]
RECURSIVE Climb(_, _, _)
Climb(u, v, i) == IF i = 0 THEN pa[u + 1][1]
                  ELSE IF ~AncAlg(pa[u + 1][i], v) THEN Climb(pa[u + 1][i], v, i - 1) ELSE Climb(u, v, i - 1)
LcaAlg(u, v) == IF AncAlg(u, v) THEN u ELSE IF AncAlg(v, u) THEN v ELSE Climb(u, v, Level)

Script(ti, to) ==
  LET k == T.n IN
  << E("lift", << T.root, Adj >>, << >>) >>
  \o [i \in 1 .. k * k |-> LET u == (i - 1) \div k v == (i - 1) % k IN E("anc", << u, v >>, Flag(IsAnc(T, u, v)))]
  \o [i \in 1 .. k * k |-> LET u == (i - 1) \div k v == (i - 1) % k IN E("lca", << u, v >>, << Lca(T, u, v) >>)]
  \o [i \in 1 .. k * k |-> LET u == (i - 1) \div k v == (i - 1) % k IN E("dis", << u, v >>, << Dist(T, u, v) >>)]
Next == (Enter \/ Visit \/ Leave) /\ (stack' = << >> => Emit(T, Script(tin', tout')))
Spec == Init /\ [][Next]_vars /\ WF_vars(Enter \/ Visit \/ Leave)

\* every entered node's table row is final: 2^i-th ancestors staying at the root
RECURSIVE Up(_, _)
Up(v, k) == IF k = 0 THEN v ELSE Up(Par(T, v), k - 1)
Rows == \A v \in Nodes(T) : tin[v + 1] # None => \A i \in 1 .. Level : pa[v + 1][i] = Up(v, 2 ^ (i - 1))
Depths == \A v \in Nodes(T) : tin[v + 1] # None => dep[v + 1] = Dep(T, v)
Answers == Done =>
  /\ \A u, v \in Nodes(T) : AncAlg(u, v) = IsAnc(T, u, v) /\ LcaAlg(u, v) = Lca(T, u, v)
  \* the LCA is the deepest common ancestor, the distance the number of edges of the path
  /\ \A u, v \in Nodes(T) :
       LET C == {w \in Nodes(T) : IsAnc(T, w, u) /\ IsAnc(T, w, v)} IN
       /\ Lca(T, u, v) \in C /\ \A w \in C : Dep(T, w) <= Dep(T, Lca(T, u, v))
       /\ Dist(T, u, v) = Cardinality(PathSet(T, u, v)) - 1
       /\ \A w \in Nodes(T) : w \in PathSet(T, u, v) <=> Dist(T, u, w) + Dist(T, w, v) = Dist(T, u, v)
Terminates == <>Done
=================================================================================
