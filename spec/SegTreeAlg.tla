------------------------------- MODULE SegTreeAlg -------------------------------
(* Both segment trees running on their node arrays, checked to refine SegArray:  *)
(* the array a user sees (Real) is each leaf with the pending updates of its     *)
(* ancestors applied, nearest first.  Queries of the lazy tree push pending      *)
(* updates down, so they are transitions too.                                    *)
EXTENDS GenLib, SegTree
CONSTANTS Lazy,      \* FALSE: plain tree
          Sizes,     \* array lengths explored
          Muts,      \* number of mutating calls explored
          Kind       \* "products", "searches", or "refusals": products, and in every state
                     \* every request out of contract is made before the array is observed
VARIABLES len, st, mut, hist
vars == << len, st, mut, hist >>

RECURSIVE Pending(_, _, _)
Pending(s, k, w) == IF k = 0 THEN w ELSE Pending(s, k \div 2, MapW(s.lz[k], w))
Real == [i \in 1 .. len |-> Pending(st, (S_(st) + i - 1) \div 2, st.d[S_(st) + i - 1])]
A == INSTANCE SegArray WITH fam <- 0, a <- Real

L == IF Lazy THEN 1 ELSE 0
Init == \E k \in Sizes :
  \/ /\ len = k /\ mut = 0
     /\ st = Build([i \in 1 .. k |-> << << i >> >>])
     /\ hist = << E("from", << L, 0, [i \in 1 .. k |-> << << i >> >>] >>, << >>) >>
  \/ /\ len = k /\ mut = 0
     /\ st = Build([i \in 1 .. k |-> << >>])
     /\ hist = << IF k = 0 THEN E("default", << L, 0 >>, << >>) ELSE E("new", << L, 0, k >>, << >>) >>

\* everything the queries can show, asked in an order that leaves updates pending as long as possible
Arr == Real
Observe(v) ==
  LET pr(x, y) == FoldLeft(LAMBDA p, q : p \o q, << >>, SubSeq(v, x + 1, y)) IN
  << E("all", << >>, pr(0, len)), E("prod", << 0, len >>, pr(0, len)) >>
  \o FoldLeft(LAMBDA acc, x : acc \o [y \in 1 .. len - x + 1 |-> E("prod", << x, x + y - 1 >>, pr(x, x + y - 1))],
              << >>, [x \in 1 .. len + 1 |-> x - 1])
  \o [p \in 1 .. len |-> E("get", << p - 1 >>, v[p])]
\* (the lazy tree's updates are asked as well)
Bads ==
  OverAll(Tops(len), LAMBDA p : << Refuses("set", << p, << << 5 >> >> >>), Refuses("get", << p >>) >>
                             \o IF Lazy THEN << Refuses("apply", << p, << 9 >> >>) >> ELSE << >>)
  \o OverAll(Tops(len + 1), LAMBDA y :
       << Refuses("right", << y, 4, 0 >>), Refuses("left", << y, 4, 0 >>), Refuses("prod", << y, y >>) >>
       \o OverAll(Span(len), LAMBDA x : << Refuses("prod", << x, y >>), Refuses("prod", << y, x >>) >>
            \o IF Lazy THEN << Refuses("range", << x, y, << 9 >> >>), Refuses("range", << y, x, << 9 >> >>) >> ELSE << >>))
  \o OverAll(Span(len), LAMBDA x :
       << Refuses("right_false", << x >>), Refuses("left_false", << x >>) >>
       \o OverAll(Span(x - 1), LAMBDA y : << Refuses("prod", << x, y >>) >>
            \o IF Lazy THEN << Refuses("range", << x, y, << 9 >> >>) >> ELSE << >>))
Log(e) == hist' = Append(hist, e) /\ Emit([n |-> len], hist' \o (IF Kind = "refusals" THEN Bads ELSE << >>) \o Observe(Arr'))
Mutate(s, e) == mut < Muts /\ mut' = mut + 1 /\ len' = len /\ st' = s /\ Log(e)
Query(s, e) == UNCHANGED << mut, len >> /\ st' = s /\ Log(e)

Fresh == << << 10 + mut >> >>
Upd == << 20 + mut >>
Params(kind) == CASE kind = 0 -> 0 .. 2 [] kind = 1 -> {0, 2, 3} [] kind = 2 -> {0, 1, 3}
                  [] kind = 3 -> {1, 2, 10, 20, 21} [] OTHER -> {0}
Next ==
  \/ \E p \in 0 .. len - 1 :
       \/ \E x \in {Fresh, << >>} : Mutate(SetAlg(st, p, x), E("set", << p, x >>, << >>))
       \/ Lazy /\ Mutate(ApplyAlg(st, p, Upd), E("apply", << p, Upd >>, << >>))
       \/ LET r == GetAlg(st, p) IN Query(r[2], E("get", << p >>, r[1]))
  \/ \E x \in 0 .. len : \E y \in x .. len :
       \/ Lazy /\ Mutate(RangeAlg(st, x, y, Upd), E("range", << x, y, Upd >>, << >>))
       \/ Kind # "searches" /\ LET r == ProdAlg(st, x, y) IN Query(r[2], E("prod", << x, y >>, r[1]))
  \/ Kind # "searches" /\ Query(st, E("all", << >>, st.d[1]))
  \/ Kind = "searches" /\ \E x \in 0 .. len : \E kind \in 0 .. 4 : \E k \in Params(kind) :
       \/ LET r == RightAlg(st, len, x, kind, k) IN Query(r[2], E("right", << x, kind, k >>, << r[1] >>))
       \/ LET r == LeftAlg(st, x, kind, k) IN Query(r[2], E("left", << x, kind, k >>, << r[1] >>))
Spec == Init /\ [][Next]_vars
View == << len, st, mut >>

\* every inner node is the ordered product of its leaves with the updates pending below it
NodesRight ==
  \A k \in 1 .. S_(st) - 1 : st.d[k] = MapW(st.lz[k], st.d[2 * k] \o st.d[2 * k + 1])
\* each query algorithm computes what the array defines and leaves the array alone
RealOf(s) == [i \in 1 .. len |-> Pending(s, (S_(s) + i - 1) \div 2, s.d[S_(s) + i - 1])]
Ok(res, want) == res[1] = want /\ RealOf(res[2]) = Real
QueriesRight ==
  /\ st.d[1] = A!Prod(0, len)
  /\ \A p \in 0 .. len - 1 : Ok(GetAlg(st, p), Real[p + 1])
  /\ \A x \in 0 .. len : \A y \in x .. len : Ok(ProdAlg(st, x, y), A!Prod(x, y))
SearchesRight ==
  Kind = "searches" => \A x \in 0 .. len : \A kind \in 0 .. 4 : \A k \in Params(kind) :
    /\ Ok(RightAlg(st, len, x, kind, k), A!RightEnd(x, kind, k))
    /\ Ok(LeftAlg(st, x, kind, k), A!LeftEnd(x, kind, k))
AbsNext ==
  \/ \E p \in 0 .. len - 1 : \/ \E x \in {Fresh, << >>} : A!Set(p, x)
                             \/ Lazy /\ A!Apply(p, Upd)
  \/ Lazy /\ \E x \in 0 .. len : \E y \in x .. len : A!Range_(x, y, Upd)
Abs == [][AbsNext]_Real
Pred(kind, dir, k, w) == A!Holds(kind, dir, k, w)
=================================================================================
