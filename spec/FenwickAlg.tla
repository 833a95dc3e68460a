------------------------------- MODULE FenwickAlg -------------------------------
(* The algorithm: node i of the tree t stores the sum of the lowbit(i) array     *)
(* elements ending at i; point additions climb by lowbit, prefix sums descend by *)
(* lowbit, construction from a slice is linear, and the partition point is found *)
(* by descending over powers of two.  The array a is a ghost variable: t must    *)
(* represent it (Represents) and every query algorithm must compute what module  *)
(* Fenwick defines (Queries).                                                    *)
EXTENDS GenLib, SequencesExt
CONSTANTS N, Bound, Kind      \* Kind: "sums", "search" (what the scripts observe)
VARIABLES a, t, hist
vars == << a, t, hist >>

F == INSTANCE Fenwick
n == Len(a)
RECURSIVE LowBit(_)
LowBit(i) == IF i % 2 = 1 THEN 1 ELSE 2 * LowBit(i \div 2)
RECURSIVE Climb(_, _, _)
Climb(tr, i, v) == IF i > Len(tr) THEN tr ELSE Climb([tr EXCEPT ![i] = @ + v], i + LowBit(i), v)
RECURSIVE Descend(_, _)
Descend(tr, i) == IF i = 0 THEN 0 ELSE tr[i] + Descend(tr, i - LowBit(i))
\* linear construction: every node hands its sum to its parent
Linear(v) == FoldLeft(LAMBDA tr, i : LET j == i + LowBit(i) IN
                        IF j <= Len(v) THEN [tr EXCEPT ![j] = @ + tr[i]] ELSE tr,
                      v, [i \in 1 .. Len(v) |-> i])
RECURSIVE Pow2Below(_)
Pow2Below(k) == IF 2 * 1 > k THEN 1 ELSE 2 * Pow2Below(k \div 2)
RECURSIVE Walk(_, _, _, _, _)
Walk(tr, P(_), pos, sum, step) ==
  IF step = 0 THEN pos
  ELSE LET nx == pos + step IN
       IF nx <= Len(tr) /\ P(sum + tr[nx]) THEN Walk(tr, P, nx, sum + tr[nx], step \div 2)
       ELSE Walk(tr, P, pos, sum, step \div 2)
PointAlg(P(_)) == IF n = 0 THEN 0 ELSE Walk(t, P, 0, 0, Pow2Below(n))

Vals == -Bound .. Bound
Init == \E k \in 0 .. N :
          \/ /\ a = [i \in 1 .. k |-> 0] /\ t = [i \in 1 .. k |-> 0]
             /\ hist = << E("new", << k % 2, k >>, << >>) >>
          \/ \E v \in [1 .. k -> Vals] :
               a = v /\ t = Linear(v) /\ hist = << E("from", << k % 2, v >>, << >>) >>

Thresholds == -(N * Bound) - 1 .. N * Bound + 1
Asc(s) == \A i \in 1 .. Len(s) - 1 : s[i] <= s[i + 1]
Desc(s) == \A i \in 1 .. Len(s) - 1 : s[i] >= s[i + 1]
Cat(ss) == FoldLeft(LAMBDA x, y : x \o y, << >>, ss)
Observe ==
  IF Kind = "sums"
  THEN [k \in 1 .. n + 1 |-> E("pref", << k - 1 >>, << F!Pref(k - 1) >>)]
       \o Cat([x \in 1 .. n + 1 |-> [y \in 1 .. n + 2 - x |->
                 E("sum", << x - 1, x + y - 2 >>, << F!Pref(x + y - 2) - F!Pref(x - 1) >>)]])
  ELSE LET s == F!Sums
           up == IF Asc(s) THEN 1 ELSE 0
           down == IF Desc(s) THEN 1 ELSE 0
           lim == N * Bound + 1
       IN << E("always", << >>, << n >>), E("never", << >>, << 0 >>) >>
          \o [k \in 1 .. up * (2 * lim + 1) |->
                E("search", << k - 1 - lim >>, << F!PointOf(LAMBDA x : x < k - 1 - lim) >>)]
          \o [k \in 1 .. up * (2 * lim + 1) |->
                E("below", << k - 1 - lim >>, << F!PointOf(LAMBDA x : x < k - 1 - lim) >>)]
          \o [k \in 1 .. down * (2 * lim + 1) |->
                E("above", << k - 1 - lim >>, << F!PointOf(LAMBDA x : x > k - 1 - lim) >>)]
          \o Cat([k \in 1 .. n + 1 |->
                LET S == {s[i] : i \in 1 .. k - 1} IN
                IF F!Partitions(LAMBDA x : x \in S)
                THEN << E("among", << SubSeq(s, 1, k - 1) >>, << F!PointOf(LAMBDA x : x \in S) >>) >> ELSE << >>])

Add(p, v) ==
  /\ a[p] + v \in Vals
  /\ a' = [a EXCEPT ![p] = @ + v]
  /\ t' = Climb(t, p, v)
  /\ hist' = Append(hist, E("add", << p - 1, v >>, << >>))
  /\ Emit([n |-> n], hist' \o Observe')
Next == \E p \in 1 .. n, v \in Vals : Add(p, v)
Spec == Init /\ [][Next]_vars
View == << a, t >>

Represents == \A i \in 1 .. n : t[i] = F!Pref(i) - F!Pref(i - LowBit(i))
Queries ==
  /\ \A k \in 0 .. n : Descend(t, k) = F!Pref(k)
  /\ \A T \in Thresholds : LET P(x) == x < T IN F!Partitions(P) => PointAlg(P) = F!PointOf(P)
  /\ \A T \in Thresholds : LET P(x) == x > T IN F!Partitions(P) => PointAlg(P) = F!PointOf(P)
  /\ \A k \in 0 .. n : LET s == F!Sums S == {s[i] : i \in 1 .. k} P(x) == x \in S IN
       F!Partitions(P) => PointAlg(P) = F!PointOf(P)
InitEmitted == Len(hist) = 1 => Emit([n |-> n], hist \o Observe)
Abs == [][F!FNext(-2 * Bound .. 2 * Bound)]_a
=================================================================================
