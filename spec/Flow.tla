---------------------------------- MODULE Flow ----------------------------------
(* Flow networks with persistent flow: vertices 0..n-1, a growing sequence of    *)
(* edges <<u, v, c>>; each call answers the largest additional amount, so the    *)
(* answers so far sum to the minimum cut between the terminals.                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

VARIABLES n, es, pushed, term       \* term: the terminals of this history, << >> before the first call
fvars == << n, es, pushed, term >>

\* an unbounded capacity (the type's largest value), above every finite total
Huge == 50000000
Cap(e) == IF e[3] < 0 THEN Huge ELSE e[3]
CutCap(E, S) == FoldLeft(LAMBDA s, e : IF e[1] \in S /\ e[2] \notin S THEN s + Cap(e) ELSE s, 0, E)
\* by definition: the least capacity over all sets holding s but not t
MinCut(k, E, s, t) == Min({CutCap(E, S \cup {s}) : S \in SUBSET ((0 .. k - 1) \ {s, t})})

\* ---- for larger networks: shortest augmenting paths, with the cut as the proof
Matrix(k, E) == LET row(u) == FoldLeft(LAMBDA f, e : IF e[1] = u /\ e[2] # u THEN [f EXCEPT ![e[2]] = @ + Cap(e)] ELSE f,
                                       [v \in 0 .. k - 1 |-> 0], E)
                IN [u \in 0 .. k - 1 |-> row(u)]
RECURSIVE Layers(_, _, _, _)
Layers(k, c, fr, pred) ==      \* pred: reached vertex -> predecessor
  LET new == {v \in (0 .. k - 1) \ DOMAIN pred : \E u \in fr : c[u][v] > 0}
  IN IF new = {} THEN pred
     ELSE Layers(k, c, new, [v \in new \cup DOMAIN pred |->
                               IF v \in DOMAIN pred THEN pred[v] ELSE CHOOSE u \in fr : c[u][v] > 0])
RECURSIVE Back(_, _, _)
Back(pred, s, v) == IF v = s THEN << >> ELSE Append(Back(pred, s, pred[v]), << pred[v], v >>)
RECURSIVE Augment(_, _, _, _, _)
Augment(k, c, s, t, val) ==
  LET pred == Layers(k, c, {s}, [v \in {s} |-> s]) IN
  IF t \notin DOMAIN pred THEN [val |-> val, side |-> DOMAIN pred]
  ELSE LET path == Back(pred, s, t)
           b == FoldLeft(LAMBDA m, e : IF c[e[1]][e[2]] < m THEN c[e[1]][e[2]] ELSE m, 1000000000, path)
           c2 == FoldLeft(LAMBDA f, e : [f EXCEPT ![e[1]][e[2]] = @ - b, ![e[2]][e[1]] = @ + b], c, path)
       IN Augment(k, c2, s, t, val + b)
MaxFlow(k, E, s, t) ==
  IF k <= 6 THEN MinCut(k, E, s, t)
  ELSE LET r == Augment(k, Matrix(k, E), s, t, 0) IN
       IF CutCap(E, r.side) = r.val THEN r.val ELSE -1     \* never -1: checked by the model

\* A proof given from outside: a flow on every edge and a side of the cut with the same value.
Nets(k, E, f) ==
  FoldLeft(LAMBDA x, i : [x EXCEPT ![E[i][1]] = @ + f[i], ![E[i][2]] = @ - f[i]],
           [u \in 0 .. k - 1 |-> 0], [i \in 1 .. Len(E) |-> i])
Proof(E, k, s, t, f, side, val) ==
  /\ Len(f) = Len(E) /\ \A i \in DOMAIN f : 0 <= f[i] /\ f[i] <= Cap(E[i])
  /\ s \in side /\ t \notin side
  /\ LET x == Nets(k, E, f) IN x[s] = val /\ \A u \in (0 .. k - 1) \ {s, t} : x[u] = 0
  /\ CutCap(E, side) = val
PushProved(s, t, f, side, r) ==
  /\ s # t /\ term \in {<< >>, << s, t >>} /\ r >= 0 /\ Proof(es, n, s, t, f, side, r + pushed) = TRUE
  /\ term' = << s, t >> /\ pushed' = pushed + r /\ UNCHANGED << n, es >>

Created(k) == n' = k /\ es' = << >> /\ pushed' = 0 /\ term' = << >>
Edge(u, v, c) == u \in 0 .. n - 1 /\ v \in 0 .. n - 1 /\ es' = Append(es, << u, v, c >>) /\ UNCHANGED << n, pushed, term >>
Edges(list) == es' = es \o list /\ UNCHANGED << n, pushed, term >>
Push(s, t, r) ==
  /\ s \in 0 .. n - 1 /\ t \in 0 .. n - 1 /\ s # t /\ term \in {<< >>, << s, t >>}
  /\ r >= 0 /\ r + pushed = MaxFlow(n, es, s, t)
  /\ term' = << s, t >> /\ pushed' = pushed + r /\ UNCHANGED << n, es >>
=================================================================================
