--------------------------------- MODULE SegTree ---------------------------------
(* The algorithms of the plain and the lazy segment tree as operators on         *)
(* st = [d, lz]: a heap-shaped complete binary tree of node values d[1..2S-1]    *)
(* (leaf i at S+i, padded with the identity) and pending updates lz[1..S-1].     *)
(* Values are words of elements as in SegArray, family 0.                        *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANT G(_, _, _, _)      \* G(kind, dir, k, word): the predicate of a boundary search

MapW(u, w) == [i \in DOMAIN w |-> w[i] \o u]
RECURSIVE CeilLog(_)
CeilLog(k) == IF k <= 1 THEN 0 ELSE 1 + CeilLog((k + 1) \div 2)
SizeOf(k) == 2 ^ CeilLog(k)

Update(st, k) == [st EXCEPT !.d[k] = st.d[2 * k] \o st.d[2 * k + 1]]
RECURSIVE UpdateAll(_, _)
UpdateAll(st, k) == IF k = 0 THEN st ELSE UpdateAll(Update(st, k), k - 1)
Build(v) ==
  LET S == SizeOf(Len(v)) IN
  UpdateAll([d |-> [k \in 1 .. 2 * S - 1 |-> IF k >= S /\ k - S < Len(v) THEN v[k - S + 1] ELSE << >>],
             lz |-> [k \in 1 .. S - 1 |-> << >>]], S - 1)

S_(st) == (Len(st.d) + 1) \div 2
LogOf(st) == CeilLog(S_(st))
AllApply(st, k, f) ==
  LET s1 == [st EXCEPT !.d[k] = MapW(f, @)]
  IN IF k < S_(st) THEN [s1 EXCEPT !.lz[k] = @ \o f] ELSE s1
Push(st, k) ==
  LET s1 == AllApply(st, 2 * k, st.lz[k])
      s2 == AllApply(s1, 2 * k + 1, st.lz[k])
  IN [s2 EXCEPT !.lz[k] = << >>]
Down(lg) == [i \in 1 .. lg |-> lg + 1 - i]      \* lg, lg-1, ..., 1
UpTo(lg) == [i \in 1 .. lg |-> i]
PushPath(st, p) == FoldLeft(LAMBDA s, i : Push(s, p \div 2 ^ i), st, Down(LogOf(st)))
UpdatePath(st, p) == FoldLeft(LAMBDA s, i : Update(s, p \div 2 ^ i), st, UpTo(LogOf(st)))
Aligned(x, i) == x % (2 ^ i) = 0

SetAlg(st, p, x) == LET q == p + S_(st) IN UpdatePath([PushPath(st, q) EXCEPT !.d[q] = x], q)
ApplyAlg(st, p, f) == LET q == p + S_(st) IN UpdatePath([PushPath(st, q) EXCEPT !.d[q] = MapW(f, @)], q)
GetAlg(st, p) == LET q == p + S_(st) s == PushPath(st, q) IN << s.d[q], s >>

RECURSIVE Collect(_, _, _, _, _)
Collect(st, l, r, sml, smr) ==
  IF l >= r THEN sml \o smr
  ELSE LET odl == l % 2 = 1
           odr == r % 2 = 1
       IN Collect(st, (IF odl THEN l + 1 ELSE l) \div 2, (IF odr THEN r - 1 ELSE r) \div 2,
                  IF odl THEN sml \o st.d[l] ELSE sml,
                  IF odr THEN st.d[r - 1] \o smr ELSE smr)
PushEdges(st, l, r, rr) ==   \* rr: the node pushed for the right edge is rr >> i
  FoldLeft(LAMBDA s, i :
      LET s1 == IF Aligned(l, i) THEN s ELSE Push(s, l \div 2 ^ i)
      IN IF Aligned(r, i) THEN s1 ELSE Push(s1, rr \div 2 ^ i),
    st, Down(LogOf(st)))
ProdAlg(st, l0, r0) ==
  IF l0 = r0 THEN << << >>, st >>
  ELSE LET l == l0 + S_(st) r == r0 + S_(st) s == PushEdges(st, l, r, r)
       IN << Collect(s, l, r, << >>, << >>), s >>
RECURSIVE Cover(_, _, _, _)
Cover(st, l, r, f) ==
  IF l >= r THEN st
  ELSE LET s1 == IF l % 2 = 1 THEN AllApply(st, l, f) ELSE st
           s2 == IF r % 2 = 1 THEN AllApply(s1, r - 1, f) ELSE s1
       IN Cover(s2, (l + (l % 2)) \div 2, (r - (r % 2)) \div 2, f)
RangeAlg(st, l0, r0, f) ==
  IF l0 = r0 THEN st
  ELSE LET l == l0 + S_(st) r == r0 + S_(st)
           s1 == PushEdges(st, l, r, r - 1)
           s2 == Cover(s1, l, r, f)
       IN FoldLeft(LAMBDA s, i :
            LET t == IF Aligned(l, i) THEN s ELSE Update(s, l \div 2 ^ i)
            IN IF Aligned(r, i) THEN t ELSE Update(t, (r - 1) \div 2 ^ i),
            s2, UpTo(LogOf(st)))

\* ---- boundary searches; g(kind, dir, k, word) is the predicate
RECURSIVE Strip0(_), Strip1(_)
Strip0(x) == IF x % 2 = 0 THEN Strip0(x \div 2) ELSE x
Strip1(x) == IF x > 1 /\ x % 2 = 1 THEN Strip1(x \div 2) ELSE x
IsPow2(x) == x = 2 ^ (CeilLog(x))
RECURSIVE RDown(_, _, _, _), RLoop(_, _, _, _), LDown(_, _, _, _), LLoop(_, _, _, _)
RDown(st, x, sm, q) ==
  IF x >= S_(st) THEN << x - S_(st), st >>
  ELSE LET s1 == Push(st, x) y == 2 * x res == sm \o s1.d[y]
       IN IF G(q[1], 0, q[2], res) THEN RDown(s1, y + 1, res, q) ELSE RDown(s1, y, sm, q)
RLoop(st, x0, sm, q) ==
  LET x == Strip0(x0) res == sm \o st.d[x]
  IN IF ~G(q[1], 0, q[2], res) THEN RDown(st, x, sm, q)
     ELSE IF IsPow2(x + 1) THEN << q[3], st >> ELSE RLoop(st, x + 1, res, q)
RightAlg(st, len, l, kind, k) ==
  IF l = len THEN << len, st >>
  ELSE RLoop(PushPath(st, l + S_(st)), l + S_(st), << >>, << kind, k, len >>)
LDown(st, x, sm, q) ==
  IF x >= S_(st) THEN << x + 1 - S_(st), st >>
  ELSE LET s1 == Push(st, x) y == 2 * x + 1 res == s1.d[y] \o sm
       IN IF G(q[1], 1, q[2], res) THEN LDown(s1, y - 1, res, q) ELSE LDown(s1, y, sm, q)
LLoop(st, x0, sm, q) ==
  LET x == Strip1(x0 - 1) res == st.d[x] \o sm
  IN IF ~G(q[1], 1, q[2], res) THEN LDown(st, x, sm, q)
     ELSE IF IsPow2(x) THEN << 0, st >> ELSE LLoop(st, x, res, q)
LeftAlg(st, r, kind, k) ==
  IF r = 0 THEN << 0, st >>
  ELSE LLoop(PushPath(st, r + S_(st) - 1), r + S_(st), << >>, << kind, k >>)
=================================================================================
