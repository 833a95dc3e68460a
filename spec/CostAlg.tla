---------------------------------- MODULE CostAlg --------------------------------
(* The walks behind every operation whose cost is promised, one loop iteration   *)
(* at a time, counting the operations the user supplies.  Where a walk depends   *)
(* on what the user's operations answer, every answer is possible: the counts    *)
(* hold for all monoids, predicates, orders and words.  Sizes up to MaxN, every  *)
(* position and range.                                                           *)
EXTENDS GenLib, Costs
CONSTANTS Sizes,     \* sizes of the walked structures
          Calls      \* sizes for which every call is also made on the real structures
VARIABLES k, n, x, y, i, ph, work
vars == << k, n, x, y, i, ph, work >>

RECURSIVE Ceil(_, _)
Ceil(m, c) == IF 2 ^ c >= m THEN c ELSE Ceil(m, c + 1)
Log == Ceil(n, 0)
S == 2 ^ Log
Bit(a) == a % 2
Shr(a, b) == a \div 2 ^ b
Whole(a, b) == a % 2 ^ b = 0
RECURSIVE LowBit(_)
LowBit(a) == IF a % 2 = 1 THEN 1 ELSE 2 * LowBit(a \div 2)
PowerOfTwo(a) == LowBit(a) = a

Push == 4          \* two mappings, two compositions
\* the phases: "down" pushes pending updates along the ends of a range, "cover" combines or updates
\* the nodes that make it up, "up" recomputes their ancestors; "left", "right" and "find" are the
\* searches; "done"
Kinds == {"seg_prod", "seg_point", "lazy_prod", "lazy_range", "lazy_point", "right", "left", "lazy_right", "lazy_left",
          "fen_pref", "fen_add", "fen_point", "heap_up", "heap_down", "kmp", "z", "climb"}
Lazy == k \in {"lazy_prod", "lazy_range", "lazy_point", "lazy_right", "lazy_left"}
Init ==
  /\ k \in Kinds /\ n \in Sizes
  /\ work = IF k \in {"right", "left", "lazy_right", "lazy_left"} THEN 1 ELSE 0     \* the predicate on the identity
  /\ \/ k \in {"seg_prod", "lazy_prod", "lazy_range"} /\ x \in 0 .. n /\ y \in x .. n /\ i = Ceil(n, 0)
        /\ ph = IF k = "seg_prod" THEN "cover" ELSE IF x = y THEN "done" ELSE "down"
     \/ k \in {"seg_point", "lazy_point"} /\ x \in 0 .. n - 1 /\ y = x + 1 /\ i = Ceil(n, 0)
        /\ ph = IF k = "seg_point" THEN "up" ELSE "down"
     \/ k \in {"right", "lazy_right"} /\ x \in 0 .. n /\ y = 0 /\ i = Ceil(n, 0)
        /\ ph = IF x = n THEN "done" ELSE IF k = "right" THEN "right" ELSE "down"
     \/ k \in {"left", "lazy_left"} /\ x \in 0 .. n /\ y = 0 /\ i = Ceil(n, 0)
        /\ ph = IF x = 0 THEN "done" ELSE IF k = "left" THEN "left" ELSE "down"
     \/ k \in {"fen_pref", "fen_add"} /\ x \in 0 .. n /\ y = 0 /\ i = 0 /\ ph = "walk"
     \/ k = "fen_point" /\ x = 0 /\ y = 0 /\ i = Digits(n) /\ ph = "walk"
     \/ k \in {"heap_up", "heap_down"} /\ n > 0 /\ x = (IF k = "heap_up" THEN n ELSE 1) /\ y = 0 /\ i = 0 /\ ph = "walk"
     \/ k \in {"kmp", "z"} /\ x = 0 /\ y = 0 /\ i = 1 /\ ph = (IF n <= 1 THEN "done" ELSE "start")
     \/ k = "climb" /\ n > 0 /\ x \in 1 .. n /\ y = 0 /\ i = 0 /\ ph = "walk"
Pay(c) == work' = work + c
Same == UNCHANGED << k, n >>

\* ---- segment trees: positions become leaves as the first phase ends
Down ==
  /\ ph = "down" /\ Same /\ x' = x /\ y' = y
  /\ IF i = 0 THEN /\ i' = 0 /\ Pay(0)
                   /\ ph' = CASE k = "lazy_right" -> "right" [] k = "lazy_left" -> "left" [] k = "lazy_point" -> "up" [] OTHER -> "cover"
     ELSE /\ i' = i - 1 /\ ph' = ph
          /\ IF k \in {"lazy_prod", "lazy_range"}
             THEN Pay((IF Whole(S + x, i) THEN 0 ELSE Push) + (IF Whole(S + y, i) THEN 0 ELSE Push))
             ELSE Pay(Push)
\* the cover counts levels upwards with i; x and y stay the range asked for
LeftAt(l) == (S + x + 2 ^ l - 1) \div 2 ^ l
RightAt(l) == (S + y) \div 2 ^ l
Level == IF k = "seg_prod" THEN Log - i ELSE i
Cover ==
  /\ ph = "cover" /\ Same /\ x' = x /\ y' = y
  /\ LET lv == Level  a == LeftAt(lv)  b == RightAt(lv)  each == IF k = "lazy_range" THEN 2 ELSE 1 IN
     IF a < b THEN /\ Pay(each * (Bit(a) + Bit(b))) /\ ph' = ph /\ i' = IF k = "seg_prod" THEN i - 1 ELSE i + 1
     ELSE /\ Pay(IF k = "lazy_range" THEN 0 ELSE 1) /\ ph' = (IF k = "lazy_range" THEN "up" ELSE "done") /\ i' = Log
Up ==
  /\ ph = "up" /\ Same /\ x' = x /\ y' = y
  /\ IF i = 0 THEN i' = 0 /\ ph' = "done" /\ Pay(IF k = "lazy_point" THEN 1 ELSE 0)
     ELSE /\ i' = i - 1 /\ ph' = ph
          /\ Pay(IF k = "lazy_range" THEN (IF Whole(S + x, i) THEN 0 ELSE 1) + (IF Whole(S + y, i) THEN 0 ELSE 1) ELSE 1)
\* ---- searches: y is the node reached (0: not started); the predicate answers as it likes
RECURSIVE Odd(_)
Odd(a) == IF Bit(a) = 0 THEN Odd(a \div 2) ELSE a
RECURSIVE EvenOrOne(_)
EvenOrOne(a) == IF a > 1 /\ Bit(a) = 1 THEN EvenOrOne(a \div 2) ELSE a
Right ==
  /\ ph = "right" /\ Same /\ x' = x /\ i' = i
  /\ LET a == Odd(IF y = 0 THEN S + x ELSE y) IN
     \/ y' = a /\ ph' = "find" /\ Pay(2)                                     \* too much: look inside
     \/ y' = a + 1 /\ Pay(3) /\ ph' = IF PowerOfTwo(a + 1) THEN "done" ELSE ph
Left ==
  /\ ph = "left" /\ Same /\ x' = x /\ i' = i
  /\ LET a == EvenOrOne((IF y = 0 THEN S + x ELSE y) - 1) IN
     \/ y' = a /\ ph' = "find" /\ Pay(2)
     \/ y' = a /\ Pay(3) /\ ph' = IF PowerOfTwo(a) THEN "done" ELSE ph
Find ==
  /\ ph = "find" /\ Same /\ x' = x /\ i' = i
  /\ IF y >= S THEN y' = y /\ ph' = "done" /\ Pay(0)
     ELSE /\ y' \in {2 * y, 2 * y + 1} /\ ph' = ph /\ Pay(2 + IF Lazy THEN Push ELSE 0)
\* ---- Fenwick tree
Fen ==
  /\ ph = "walk" /\ Same /\ y' = y
  /\ \/ k = "fen_pref" /\ i' = i /\ IF x = 0 THEN x' = 0 /\ ph' = "done" /\ Pay(0)
                                    ELSE x' = x - LowBit(x) /\ ph' = ph /\ Pay(1)
     \/ k = "fen_add" /\ i' = i /\ IF x = 0 \/ x > n THEN x' = x /\ ph' = "done" /\ Pay(0)
                                   ELSE x' = x + LowBit(x) /\ ph' = ph /\ Pay(1)
     \/ k = "fen_point" /\ IF i = 0 THEN i' = 0 /\ x' = x /\ ph' = "done" /\ Pay(0)
                           ELSE /\ i' = i - 1 /\ ph' = ph
                                /\ LET next == x + 2 ^ (i - 1) IN
                                   IF next > n THEN x' = x /\ Pay(0)
                                   ELSE \/ x' = x /\ Pay(2)           \* addition, predicate
                                        \/ x' = next /\ Pay(3)
\* ---- heap
Sift ==
  /\ ph = "walk" /\ Same /\ y' = y /\ i' = i
  /\ \/ k = "heap_up" /\ IF x = 1 THEN x' = 1 /\ ph' = "done" /\ Pay(0)
                         ELSE Pay(1) /\ \/ x' = x \div 2 /\ ph' = ph
                                        \/ x' = x /\ ph' = "done"
     \/ k = "heap_down" /\ IF 2 * x > n THEN x' = x /\ ph' = "done" /\ Pay(0)
                           ELSE Pay(2) /\ \/ x' \in {2 * x, 2 * x + 1} /\ x' <= n /\ ph' = ph
                                          \/ x' = x /\ ph' = "done"
\* ---- prefix function: x is the border in hand; shorter borders are borders of it
Kmp ==
  /\ k = "kmp" /\ Same /\ y' = y
  /\ \/ ph = "start" /\ x > 0 /\ x' \in 0 .. x - 1 /\ i' = i /\ ph' = ph /\ Pay(1)       \* cannot be extended
     \/ ph = "start" /\ x' \in {x, x + 1} /\ i' = i + 1 /\ Pay(2) /\ ph' = IF i + 1 = n THEN "done" ELSE ph
\* ---- Z-function: y is one past the rightmost match known; only matches reaching it are extended
Zed ==
  /\ k = "z" /\ Same
  /\ \/ ph = "start" /\ x' \in 0 .. n - i /\ y' = y /\ i' = i /\ Pay(0) /\ ph' = "match"
        /\ (IF i < y THEN i + x' <= y ELSE x' = 0)
     \/ ph = "match" /\ i' = i /\ i + x < n /\ i + x >= y /\ Pay(1) /\ x' = x + 1 /\ y' = y /\ ph' = ph     \* they agree
     \/ ph = "match" /\ Pay(IF i + x < n THEN 1 ELSE 0) /\ x' = 0 /\ i' = i + 1
        /\ y' = (IF i + x > y THEN i + x ELSE y) /\ ph' = IF i + 1 = n THEN "done" ELSE "start"
\* ---- climbing from run to run: each heavier sibling at least doubles the subtree
Climb == /\ ph = "walk" /\ k = "climb" /\ Same /\ y' = y
         /\ \/ 2 * x < n /\ x' \in 2 * x + 1 .. n /\ i' = i + 1 /\ ph' = ph /\ Pay(1)
            \/ x' = x /\ i' = i /\ ph' = "done" /\ Pay(1)
Next == Down \/ Cover \/ Up \/ Right \/ Left \/ Find \/ Fen \/ Sift \/ Kmp \/ Zed \/ Climb
Spec == Init /\ [][Next]_vars

Budget ==
  CASE k = "seg_prod" -> SegProd(n) [] k = "seg_point" -> SegSet(n)
    [] k \in {"right", "left"} -> SegSearch(n) [] k \in {"lazy_right", "lazy_left"} -> LazySearch(n)
    [] k = "lazy_point" -> LazyPoint(n) [] k \in {"lazy_prod", "lazy_range"} -> LazyRange(n)
    [] k \in {"fen_pref", "fen_add"} -> FenStep(n) [] k = "fen_point" -> 2 * FenStep(n)
    [] k \in {"heap_up", "heap_down"} -> HeapStep(n)
    [] k \in {"kmp", "z"} -> TableCost(n)
    [] k = "climb" -> LogOf(n)
InBudget == work <= Budget
\* what makes the linear tables linear
Potential == /\ k = "kmp" => work + x <= 3 * i - 2
             /\ k = "z" /\ ph # "match" => work <= i + y
\* every walk ends (measures that go down with each step)
Bounded == work <= 12 * n + 100

\* the same calls on the real structures
Ends(m) == {0, 1, m \div 2, m - 1, m} \cap 0 .. m
Some(f(_), s) == SetToSeq({f(p) : p \in s})
SegCalls(kk, m) ==
  Some(LAMBDA p : E("set", << p >>, << 0 >>), 0 .. m - 1) \o Some(LAMBDA p : E("get", << p >>, << 0 >>), 0 .. m - 1)
  \o Some(LAMBDA p : E("prod", p, << 0 >>), {p \in (0 .. m) \X (0 .. m) : p[1] <= p[2]})
  \o Some(LAMBDA p : E("right", p, << 0 >>), (0 .. m) \X (0 .. m)) \o Some(LAMBDA p : E("left", p, << 0 >>), (0 .. m) \X (0 .. m))
  \o << E("all", << >>, << 0 >>) >>
  \o IF kk = "seg" THEN << >>
     ELSE Some(LAMBDA p : E("apply", << p >>, << 0 >>), 0 .. m - 1)
          \o Some(LAMBDA p : E("range", p, << 0 >>), {p \in (0 .. m) \X (0 .. m) : p[1] <= p[2]})
FenCalls(m) ==
  Some(LAMBDA p : E("add", << p >>, << 0 >>), 0 .. m - 1) \o Some(LAMBDA p : E("pref", << p >>, << 0 >>), 0 .. m)
  \o Some(LAMBDA p : E("sum", p, << 0 >>), {p \in (0 .. m) \X (0 .. m) : p[1] <= p[2]})
  \o Some(LAMBDA p : E("search", << p >>, << 0 >>), 0 .. m + 1) \o Some(LAMBDA p : E("point", << p >>, << 0 >>), 0 .. m + 1)
HeapCalls(m) ==
  << E("heaps", << 2 >>, << 0 >>) >>
  \o OverAll(<< -1, 0, 1 >>, LAMBDA d : << E("pushes", << 0, 5, d, m >>, << 0 >>) >> \o [p \in 1 .. m + 1 |-> E("pop", << 0 >>, << 0 >>)])
  \o OverAll(<< 0, 1, m >>, LAMBDA p : << E("pushes", << 0, 5, 1, m >>, << 0 >>), E("pushes", << 1, 9, -2, p >>, << 0 >>), E("append", << 0, 1 >>, << 0 >>),
                                          E("peek", << 0 >>, << 0 >>), E("push", << 0, -100 >>, << 0 >>), E("sorted", << 0 >>, << 0 >>) >>)
HldCalls(m) ==
  OverAll(Span(6), LAMBDA sh : OverAll(Span(5), LAMBDA sd :
    << E("hld", << m, sh, sd >>, << 0 >>) >>
    \o Some(LAMBDA p : E("path", p, << 0 >>), Ends(m - 1) \X (0 .. m - 1))
    \o Some(LAMBDA p : E("path_apply", p, << 0 >>), Ends(m - 1) \X (0 .. m - 1))
    \o OverAll(Span(m - 1), LAMBDA p : << E("tree", << p >>, << 0 >>), E("tree_apply", << p >>, << 0 >>), E("get", << p >>, << 0 >>), E("set", << p >>, << 0 >>) >>)))
SparseCalls(m) == << E("sparse", << m >>, << 0 >>) >> \o Some(LAMBDA p : E("get", p, << 0 >>), {p \in (0 .. m) \X (0 .. m) : p[1] < p[2]})
WordCalls(m) == OverAll(Span(8), LAMBDA st : << E("kmp", << m, st, 3 >>, << 0 >>), E("z", << m, st, 3 >>, << 0 >>) >>)
Script(m) ==
  << E("seg", << m >>, << 0 >>) >> \o SegCalls("seg", m) \o << E("seg_new", << m >>, << 0 >>) >> \o SegCalls("seg", m)
  \o << E("lazy", << m >>, << 0 >>) >> \o SegCalls("lazy", m) \o << E("lazy_new", << m >>, << 0 >>) >> \o SegCalls("lazy", m)
  \o << E("fen", << m >>, << 0 >>) >> \o FenCalls(m) \o << E("fen_new", << m >>, << 0 >>) >> \o FenCalls(m)
  \o HeapCalls(m) \o SparseCalls(m) \o WordCalls(m) \o IF m > 0 THEN HldCalls(m) ELSE << >>
ASSUME \A m \in Calls : Emit(0, Script(m))
==================================================================================
