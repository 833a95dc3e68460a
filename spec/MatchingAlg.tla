------------------------------- MODULE MatchingAlg -------------------------------
(* The algorithm: per phase, a depth-first augmenting search from every free     *)
(* left vertex with visit marks shared by the phase; phases repeat until none    *)
(* augments.  Edges and solves interleave freely.                                *)
EXTENDS GenLib, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS NL, NR, MaxEdges
VARIABLES g, lm, rm, edges, last, hist     \* lm, rm: mates, -1 when free; last: answer of the last solve or -1
vars == << g, lm, rm, edges, last, hist >>
M == INSTANCE Matching WITH nl <- NL, nr <- NR, es <- {}, match <- {}
Es == UNION {{<< u, g[u + 1][i] >> : i \in DOMAIN g[u + 1]} : u \in 0 .. NL - 1}
Idx(s, P(_)) == {i \in DOMAIN s : P(s[i])}

\* st = [ok, vis, l, r]
RECURSIVE Dfs(_, _), Try(_, _, _)
Dfs(u, st) ==
  IF u \in st.vis THEN [st EXCEPT !.ok = FALSE]
  ELSE LET s1 == [st EXCEPT !.vis = @ \cup {u}]
           free == Idx(g[u + 1], LAMBDA v : st.r[v + 1] = -1)
       IN IF free # {}
          THEN LET v == g[u + 1][Min(free)] IN [s1 EXCEPT !.ok = TRUE, !.l[u + 1] = v, !.r[v + 1] = u]
          ELSE Try(u, 1, s1)
Try(u, i, st) ==
  IF i > Len(g[u + 1]) THEN [st EXCEPT !.ok = FALSE]
  ELSE LET v == g[u + 1][i] s2 == Dfs(st.r[v + 1], st) IN
       IF s2.ok THEN [s2 EXCEPT !.l[u + 1] = v, !.r[v + 1] = u] ELSE Try(u, i + 1, s2)
Phase(l0, r0) ==
  FoldLeft(LAMBDA acc, u :
      IF acc.st.l[u + 1] # -1 THEN acc
      ELSE LET s == Dfs(u, acc.st) IN [any |-> acc.any \/ s.ok, st |-> s],
    [any |-> FALSE, st |-> [ok |-> FALSE, vis |-> {}, l |-> l0, r |-> r0]], [u \in 1 .. NL |-> u - 1])
RECURSIVE Phases(_, _)
Phases(l0, r0) == LET p == Phase(l0, r0) IN IF p.any THEN Phases(p.st.l, p.st.r) ELSE << p.st.l, p.st.r >>

Init == /\ g = [u \in 1 .. NL |-> << >>] /\ lm = [u \in 1 .. NL |-> -1] /\ rm = [v \in 1 .. NR |-> -1]
        /\ edges = 0 /\ last = -1 /\ hist = << E("new", << NL, NR >>, << >>) >>
Edge(u, v) == /\ edges < MaxEdges /\ edges' = edges + 1
              /\ g' = [g EXCEPT ![u + 1] = Append(@, v)] /\ last' = -1
              /\ UNCHANGED << lm, rm >> /\ hist' = Append(hist, E("edge", << u, v >>, << >>))
Solve == LET p == Phases(lm, rm) k == Cardinality(Idx(p[1], LAMBDA v : v # -1)) IN
         /\ lm' = p[1] /\ rm' = p[2] /\ last' = k /\ UNCHANGED << g, edges >>
         /\ hist' = Append(hist, E("solve", << >>, << k >>)) /\ Emit([n |-> NL], hist')
Next == \/ \E u \in 0 .. NL - 1, v \in 0 .. NR - 1 : Edge(u, v)
        \/ Solve
Spec == Init /\ [][Next]_vars
View == << g, lm, rm, last >>

Consistent == /\ \A u \in 1 .. NL : lm[u] # -1 => rm[lm[u] + 1] = u - 1 /\ << u - 1, lm[u] >> \in Es
              /\ \A v \in 1 .. NR : rm[v] # -1 => lm[rm[v] + 1] = v - 1
Maximum == last # -1 => last = M!MaxSize(Es, NL)
=================================================================================
