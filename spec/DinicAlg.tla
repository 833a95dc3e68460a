--------------------------------- MODULE DinicAlg ---------------------------------
(* The algorithm on residual edge pairs: breadth-first levels from the source,   *)
(* then a depth-first blocking flow with per-vertex edge cursors, until the sink *)
(* is not reached.  Edges and flow calls interleave; the residual network        *)
(* persists.                                                                     *)
EXTENDS GenLib, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS N, Caps, MaxEdges, MaxCalls,
          Invalid    \* TRUE: before and after every flow, every request on a vertex out of range
VARIABLES e, g, orig, total, calls, hist   \* e: seq of [to, cap]; pairs (2i-1, 2i); g[u]: edge indices
vars == << e, g, orig, total, calls, hist >>
V == 0 .. N - 1
S == 0
T == N - 1
F == INSTANCE Flow WITH n <- N, es <- orig, pushed <- total, term <- << S, T >>
Rev(j) == IF j % 2 = 1 THEN j + 1 ELSE j - 1

\* levels, breadth first; stops as soon as the sink is labelled
RECURSIVE Bfs(_, _, _)
Bfs(ee, h, q) ==
  IF q = << >> THEN << FALSE, h >>
  ELSE LET u == q[1]
           step == FoldLeft(LAMBDA acc, j :
                     LET v == ee[j].to IN
                     IF acc[3] \/ ee[j].cap = 0 \/ acc[1][v] # -1 THEN acc
                     ELSE << [acc[1] EXCEPT ![v] = acc[1][u] + 1], Append(acc[2], v), v = T >>,
                     << h, Tail(q), FALSE >>, g[u])
       IN IF step[3] THEN << TRUE, step[1] >> ELSE Bfs(ee, step[1], step[2])
Levels(ee) == Bfs(ee, [v \in V |-> IF v = S THEN 0 ELSE -1], << S >>)
\* st = [e, cur]; returns << flow pushed, st >>
RECURSIVE Dfs(_, _, _, _), Scan(_, _, _, _, _)
Dfs(h, st, u, f) == IF u = T THEN << f, st >> ELSE Scan(h, st, u, f, f)
Scan(h, st, u, f, r) ==
  IF st.cur[u] > Len(g[u]) THEN << f - r, st >>
  ELSE LET j == g[u][st.cur[u]]
           v == st.e[j].to
           c == st.e[j].cap
           next(s) == [s EXCEPT !.cur[u] = @ + 1]
       IN IF c > 0 /\ h[v] = h[u] + 1
          THEN LET d == Dfs(h, st, v, IF r < c THEN r ELSE c)
                   s2 == [d[2] EXCEPT !.e[j].cap = @ - d[1], !.e[Rev(j)].cap = @ + d[1]]
               IN IF r - d[1] = 0 THEN << f, s2 >> ELSE Scan(h, next(s2), u, f, r - d[1])
          ELSE Scan(h, next(st), u, f, r)
RECURSIVE Run(_, _)
Run(ee, ans) ==
  LET lv == Levels(ee) IN
  IF ~lv[1] THEN << ans, ee >>
  ELSE LET d == Dfs(lv[2], [e |-> ee, cur |-> [v \in V |-> 1]], S, 1000000) IN Run(d[2].e, ans + d[1])

Init == /\ e = << >> /\ g = [v \in V |-> << >>] /\ orig = << >> /\ total = 0 /\ calls = 0
        /\ hist = << E("new", << 5, N >>, << >>) >>
Edge(u, v, c) ==
  /\ Len(orig) < MaxEdges
  /\ e' = e \o << [to |-> v, cap |-> c], [to |-> u, cap |-> 0] >>
  /\ g' = LET g1 == [g EXCEPT ![u] = Append(@, Len(e) + 1)] IN [g1 EXCEPT ![v] = Append(@, Len(e) + 2)]
  /\ orig' = Append(orig, << u, v, c >>)
  /\ UNCHANGED << total, calls >> /\ hist' = Append(hist, E("edge", << u, v, c >>, << >>))
Bads == IF ~Invalid THEN << >> ELSE
  OverAll(Tops(N), LAMBDA x : << Refuses("edge", << x, x, 1 >>), Refuses("flow", << x, x >>) >>
    \o OverAll(Span(N - 1), LAMBDA u : << Refuses("edge", << x, u, 1 >>), Refuses("edge", << u, x, 1 >>),
                                       Refuses("flow", << x, u >>), Refuses("flow", << u, x >>) >>))
LastCall == LET k == CHOOSE k \in 1 .. Len(hist) : hist[k].st = "ok" /\ \A q \in k + 1 .. Len(hist) : hist[q].st # "ok" IN hist[k].op
Push == LET r == Run(e, 0) IN
  /\ calls < MaxCalls /\ calls' = calls + 1
  /\ e' = r[2] /\ total' = total + r[1] /\ UNCHANGED << g, orig >>
  /\ hist' = hist \o Bads \o << E("flow", << S, T >>, << r[1] >>) >> \o Bads /\ Emit([n |-> N], hist')
Next == \/ \E u, v \in V, c \in Caps : Edge(u, v, c)
        \/ Push
Spec == Init /\ [][Next]_vars
View == << e, g, orig, total, calls >>

Conserved == \A u \in V \ {S, T} :     \* what flowed in flowed out
  LET net == FoldLeft(LAMBDA s, i : LET fl == e[2 * i].cap IN
                s + (IF orig[i][2] = u THEN fl ELSE 0) - (IF orig[i][1] = u THEN fl ELSE 0), 0,
                [i \in 1 .. Len(orig) |-> i])
  IN net = 0
Residual == \A i \in 1 .. Len(orig) : e[2 * i - 1].cap >= 0 /\ e[2 * i].cap >= 0
                                      /\ (orig[i][1] # orig[i][2] => e[2 * i - 1].cap + e[2 * i].cap = orig[i][3])
\* right after a call the total is the minimum cut; the fast reference agrees with it
Optimal == (calls > 0 /\ LastCall = "flow") => total = F!MinCut(N, orig, S, T)
Reference == F!Augment(N, F!Matrix(N, orig), S, T, 0).val = F!MinCut(N, orig, S, T)
AbsNext == (\E r \in 0 .. 100 : F!Push(S, T, r)) \/ \E u, v \in V, c \in Caps : F!Edge(u, v, c)
Abs == [][AbsNext]_<< orig, total >>
=================================================================================
