-------------------------------- MODULE TarjanAlg --------------------------------
(* Tarjan's algorithm, one step per state: a call stack of (vertex, next edge),  *)
(* discovery order, low links, the stack of open vertices; components are        *)
(* numbered as they close.  All digraphs on N vertices, with or without loops.   *)
EXTENDS GenLib, Graph
CONSTANTS N, Loops
VARIABLES adj, order, low, pos, open, frames, col, cnt
vars == << adj, order, low, pos, open, frames, col, cnt >>
V == 0 .. N - 1
Arcs == {p \in V \X V : Loops \/ p[1] # p[2]}
AdjOf(G, up) == [u \in 1 .. N |->
   LET S == {v \in V : << u - 1, v >> \in G} IN IF up THEN SetToSortSeq(S, <) ELSE SetToSortSeq(S, >)]
Init == /\ \E G \in SUBSET Arcs, up \in BOOLEAN : adj = AdjOf(G, up)
        /\ order = [v \in V |-> -1] /\ low = [v \in V |-> 0] /\ pos = 0
        /\ open = << >> /\ frames = << >> /\ col = [v \in V |-> -1] /\ cnt = 0
Discover(u, fr) ==
  /\ order' = [order EXCEPT ![u] = pos] /\ low' = [low EXCEPT ![u] = pos] /\ pos' = pos + 1
  /\ open' = Append(open, u) /\ frames' = Append(fr, << u, 1 >>) /\ UNCHANGED << adj, col, cnt >>
Root == /\ frames = << >> /\ \E u \in V : order[u] = -1
        /\ Discover(Min({u \in V : order[u] = -1}), << >>)
Top == frames[Len(frames)]
IsOpen(v) == \E i \in DOMAIN open : open[i] = v
Edge == /\ frames # << >> /\ Top[2] <= Len(adj[Top[1] + 1])
        /\ LET u == Top[1] v == adj[u + 1][Top[2]] IN
           IF order[v] = -1 THEN Discover(v, frames)      \* come back to the same edge afterwards
           ELSE /\ low' = IF IsOpen(v) /\ low[v] < low[u] THEN [low EXCEPT ![u] = low[v]] ELSE low
                /\ frames' = [frames EXCEPT ![Len(frames)][2] = @ + 1]
                /\ UNCHANGED << adj, order, pos, open, col, cnt >>
Close == /\ frames # << >> /\ Top[2] > Len(adj[Top[1] + 1])
         /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
         /\ LET u == Top[1] IN
            IF low[u] = order[u]
            THEN LET k == CHOOSE i \in DOMAIN open : open[i] = u IN
                 /\ col' = [v \in V |-> IF \E i \in k .. Len(open) : open[i] = v THEN cnt ELSE col[v]]
                 /\ open' = SubSeq(open, 1, k - 1) /\ cnt' = cnt + 1
            ELSE UNCHANGED << col, open, cnt >>
         /\ UNCHANGED << adj, order, low, pos >>
Asked == pos = 0 /\ frames = << >>
Done == frames = << >> /\ \A u \in V : order[u] # -1
Step == Root \/ Edge \/ Close
\* a behaviour is asked once, when the first vertex is discovered; numbering is not determined,
\* so the answer is left to the trace specification
Next == Step /\ ((pos = 0) => Emit([n |-> N], << E("scc", << adj >>, << >>) >>))
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

ColSeq == [i \in 1 .. N |-> col[i - 1]]
Right == Done => IsScc(adj, cnt, ColSeq)
\* the certificate used for larger recordings accepts exactly the right answers
Certificates == Asked => \A k \in 0 .. N : \A c \in [1 .. N -> 0 .. N - 1] : IsScc(adj, k, c) <=> SccCertified(adj, k, c)
\* closed components are final and closed under reachability
ClosedRight == \A u \in V : col[u] # -1 => \A v \in ToSet(adj[u + 1]) : col[v] # -1 /\ col[v] <= col[u]
OpenRight == /\ \A i \in DOMAIN open : col[open[i]] = -1
             /\ \A i, j \in DOMAIN open : i < j => order[open[i]] < order[open[j]]
Terminates == <>Done
=================================================================================
