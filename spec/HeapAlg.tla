-------------------------------- MODULE HeapAlg --------------------------------
(* Array-based binary heaps: push sifts the new last element up, pop moves the   *)
(* last element to the root and sifts it down, append merges by pushing.  Two    *)
(* heaps of small keys; elements carry unique ids.  Checked to refine Heap; each *)
(* transition is printed with the keys that every later pop must give.           *)
EXTENDS GenLib, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS Keys, MaxPush
VARIABLES arr, pushed, hist     \* arr[h]: the array of heap h, 1-based
vars == << arr, pushed, hist >>
Hs == {0, 1}
Bag == [h \in Hs |-> ToSet(arr[h])]
A == INSTANCE Heap WITH hp <- Bag

RECURSIVE Up(_, _), Down(_, _)
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Up(s, i) == IF i > 1 /\ s[i][1] < s[i \div 2][1] THEN Up(Swap(s, i, i \div 2), i \div 2) ELSE s
Down(s, i) ==
  LET c == {j \in {2 * i, 2 * i + 1} : j <= Len(s)} IN
  IF c = {} THEN s
  ELSE LET m == CHOOSE j \in c : \A k \in c : s[j][1] < s[k][1] \/ (s[j][1] = s[k][1] /\ j <= k) IN
       IF s[m][1] < s[i][1] THEN Down(Swap(s, i, m), m) ELSE s
PushTo(s, x) == Up(Append(s, x), Len(s) + 1)
PopFrom(s) == IF Len(s) <= 1 THEN << >> ELSE Down([SubSeq(s, 1, Len(s) - 1) EXCEPT ![1] = s[Len(s)]], 1)

KeysOf(s) == SortSeq([i \in 1 .. Len(s) |-> s[i][1]], LAMBDA x, y : x < y)
Drain(h, ks) == << E("len", << h >>, << Len(ks) >>), E("empty", << h >>, Flag(ks = << >>)) >>
                \o [i \in 1 .. Len(ks) |-> E("popkey", << h >>, << ks[i] >>)]
                \o << E("popkey", << h >>, << >>), E("empty", << h >>, << 1 >>) >>
SortedOut(h, ks) == << E("sortedkeys", << h >>, Reverse(ks)), E("len", << h >>, << 0 >>) >>
Observe(ar) == IF pushed % 2 = 0 THEN Drain(0, KeysOf(ar[0])) \o SortedOut(1, KeysOf(ar[1]))
               ELSE SortedOut(0, KeysOf(ar[0])) \o Drain(1, KeysOf(ar[1]))

Init == arr = [h \in Hs |-> << >>] /\ pushed = 0
        /\ hist = << E("new", << 0 >>, << >>), E("with_capacity", << 1, 2 >>, << >>) >>
Do(ev) == hist' = hist \o ev /\ Emit([hs |-> 2], hist' \o Observe(arr'))
Push(h, k) == /\ pushed < MaxPush /\ pushed' = pushed + 1
              /\ arr' = [arr EXCEPT ![h] = PushTo(@, << k, pushed + 1 >>)]
              /\ Do(<< E("push", << h, k, pushed + 1 >>, << >>) >>)
Pop(h) == /\ arr' = [arr EXCEPT ![h] = PopFrom(@)] /\ UNCHANGED pushed
          /\ Do(<< E("popkey", << h >>, IF arr[h] = << >> THEN << >> ELSE << arr[h][1][1] >>) >>)
Merge(h) == /\ arr' = [arr EXCEPT ![h] = FoldLeft(PushTo, arr[h], arr[1 - h]), ![1 - h] = << >>]
            /\ UNCHANGED pushed
            /\ Do(<< E("append", << h, 1 - h >>, << >>) >>)
Clear(h) == arr' = [arr EXCEPT ![h] = << >>] /\ UNCHANGED pushed /\ Do(<< E("clear", << h >>, << >>) >>)
Next == \E h \in Hs : \/ \E k \in Keys : Push(h, k)
                      \/ Pop(h) \/ Merge(h) \/ Clear(h)
Spec == Init /\ [][Next]_vars
\* ids only tell equal keys apart; states that differ in ids alone behave alike
View == << pushed, [h \in Hs |-> [i \in DOMAIN arr[h] |-> arr[h][i][1]]] >>

HeapOrder == \A h \in Hs : \A i \in 2 .. Len(arr[h]) : arr[h][i \div 2][1] <= arr[h][i][1]
NoDuplicates == \A h \in Hs : Cardinality(Bag[h]) = Len(arr[h]) /\ Bag[h] \cap Bag[1 - h] = {}
AbsNext == \E h \in Hs :
  \/ \E k \in Keys : A!Push(h, k, pushed + 1)
  \/ A!Pop(h, IF arr[h] = << >> THEN << >> ELSE << arr[h][1] >>)
  \/ A!Append_(h, 1 - h)
  \/ A!Clear(h)
Abs == [][AbsNext]_Bag
=================================================================================
