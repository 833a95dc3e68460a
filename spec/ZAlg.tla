----------------------------------- MODULE ZAlg -----------------------------------
(* The Z algorithm: window [lo, hi] is the match ending furthest right; entry i  *)
(* starts from the mirrored entry inside the window and is extended symbol by    *)
(* symbol.  Every word over the alphabet up to length MaxLen.                    *)
EXTENDS GenLib, Strings
CONSTANTS Symbols, MaxLen
VARIABLES s, z, i, lo, hi, k    \* k: length matched so far at i; -1 between entries
vars == << s, z, i, lo, hi, k >>
Words == UNION {[1 .. n -> Symbols] : n \in 0 .. MaxLen}
Init == s \in Words /\ z = << 0 >> /\ i = 1 /\ lo = 0 /\ hi = 0 /\ k = -1
Lesser(x, y) == IF x < y THEN x ELSE y
Begin == /\ k = -1 /\ i < Len(s)
         /\ k' = IF i <= hi THEN Lesser(hi - i + 1, z[i - lo + 1]) ELSE 0
         /\ UNCHANGED << s, z, i, lo, hi >>
More == i + k < Len(s) /\ s[k + 1] = s[i + k + 1]
Extend == k >= 0 /\ More /\ k' = k + 1 /\ UNCHANGED << s, z, i, lo, hi >>
Close == /\ k >= 0 /\ ~More
         /\ z' = Append(z, k) /\ k' = -1 /\ i' = i + 1
         /\ IF i + k - 1 > hi THEN lo' = i /\ hi' = i + k - 1 ELSE UNCHANGED << lo, hi >>
         /\ s' = s
Done == k = -1 /\ i >= Len(s)
Report == /\ Done /\ Emit(0, << E("z", << s >>, IF s = << >> THEN << >> ELSE z) >>) /\ UNCHANGED vars
Next == Begin \/ Extend \/ Close \/ Report
Spec == Init /\ [][Next]_vars
Table == \A q \in 2 .. Len(z) : z[q] = Lcp(s, q - 1)
\* judging an entry by the match it claims is judging it by definition
Entries == i < Len(s) => \A x \in 0 .. Len(s) : ZEntry(s, i, x) <=> x = Lcp(s, i)
\* so is judging it by what lies beyond the window, once the entries before it are right
Entries2 == k = -1 /\ i < Len(s) =>
  \A x \in 0 .. Len(s) : LET r == [j \in 1 .. Len(s) |-> IF j <= i THEN z[j] ELSE IF j = i + 1 THEN x ELSE 99]
                         IN ZEntryAfter(s, r, i, lo, hi + 1) <=> x = Lcp(s, i)
\* the window is a match, and what has been matched at i is one
Window == /\ (lo < i /\ hi < Len(s)) \/ s = << >>
          /\ lo > 0 => Matches(s, lo, hi - lo + 1)
          /\ k > 0 => Matches(s, i, k)
===================================================================================
