--------------------------------- MODULE Strings ---------------------------------
(* Words and the two failure tables, by definition.  Positions are 0-based in    *)
(* the tables (as in the library); words are sequences of symbols.               *)
EXTENDS Integers, Sequences

Matches(s, i, k) == \A j \in 1 .. k : s[j] = s[i + j]     \* s[i .. i+k) = s[0 .. k)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE LongestFrom(_, _, _)
\* greatest k' <= k such that the first k' symbols are also the last k' of the first i + 1
LongestFrom(s, i, k) == IF k = 0 \/ Matches(s, i + 1 - k, k) THEN k ELSE LongestFrom(s, i, k - 1)
\* longest proper border of s[0..i]
Border(s, i) == LongestFrom(s, i, i)
RECURSIVE Common(_, _, _)
Common(s, i, k) == IF i + k < Len(s) /\ s[k + 1] = s[i + k + 1] THEN Common(s, i, k + 1) ELSE k
\* longest common prefix of s and s[i..]
Lcp(s, i) == Common(s, i, 0)

\* ---- judging long tables entry by entry
\* z is the length of the longest common prefix of s and s[i..]
ZEntry(s, i, z) == i + z <= Len(s) /\ Matches(s, i, z) /\ (i + z = Len(s) \/ s[z + 1] # s[i + z + 1])
\* the same, given that the entries of r before it are right and that s[lo..hi) repeats the beginning:
\* only what lies beyond the stretch needs comparing
ZEntryAfter(s, r, i, lo, hi) ==
  LET k == IF i >= hi THEN 0 ELSE IF hi - i < r[i - lo + 1] THEN hi - i ELSE r[i - lo + 1]
      z == r[i + 1]
  IN /\ z >= k /\ i + z <= Len(s)
     /\ \A j \in k + 1 .. z : s[j] = s[i + j]
     /\ (i + z = Len(s) \/ s[z + 1] # s[i + z + 1])
\* the longest border of s[0..i], given that the entries of r before it are right: the longest
\* border of the word before it that the next symbol continues
RECURSIVE GrowBorder(_, _, _, _)
GrowBorder(s, r, i, k) == IF s[k + 1] = s[i + 1] THEN k + 1 ELSE IF k = 0 THEN 0 ELSE GrowBorder(s, r, i, r[k])
BorderEntry(s, r, i) == r[i + 1] = IF i = 0 THEN 0 ELSE GrowBorder(s, r, i, r[i])

PrefixTable(s) == [i \in 1 .. Len(s) |-> Border(s, i - 1)]
ZTable(s) == [i \in 1 .. Len(s) |-> IF i = 1 THEN 0 ELSE Lcp(s, i - 1)]
==================================================================================
