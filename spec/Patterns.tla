--------------------------------- MODULE Patterns ---------------------------------
(* A multi-pattern matcher, as a user sees it: pats is the history of insertions *)
(* << word, index >>, n the number of indices; a word inserted again belongs to  *)
(* the latest index.                                                             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n, pats, built
pvars == << n, pats, built >>

Words == {pats[i][1] : i \in DOMAIN pats}
Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
Owner(w) == pats[Largest({i \in DOMAIN pats : pats[i][1] = w})][2]
Longest == IF pats = << >> THEN 0 ELSE Largest({Len(w) : w \in Words})
\* (those of at most top symbols)
PrefixesTo(top) == UNION {{SubSeq(w, 1, k) : k \in 0 .. IF Len(w) < top THEN Len(w) ELSE top} : w \in Words}
WordPrefixes == PrefixesTo(Longest)
\* the last k of the first i symbols of t
Tail1(t, i, k) == SubSeq(t, i - k + 1, i)
Reach(i) == IF i < Longest THEN i ELSE Longest
\* indices of the patterns ending at position i (1-based), longest first; W is the set of
\* words and lens the lengths that occur, longest first
RECURSIVE EndingFrom(_, _, _, _, _)
EndingFrom(W, lens, t, i, j) ==
  IF j > Len(lens) THEN << >>
  ELSE LET w == Tail1(t, i, lens[j]) IN
       (IF lens[j] <= i /\ w \in W THEN << Owner(w) >> ELSE << >>) \o EndingFrom(W, lens, t, i, j + 1)
RECURSIVE Descending(_)
Descending(S) == IF S = {} THEN << >> ELSE LET x == Largest(S) IN << x >> \o Descending(S \ {x})
Lengths == Descending({Len(pats[i][1]) : i \in DOMAIN pats})
Ending(t, i) == EndingFrom(Words, Lengths, t, i, 1)
\* the longest suffix of the first i symbols that is a prefix of some pattern
RECURSIVE SuffixFrom(_, _, _, _)
SuffixFrom(P, t, i, k) == IF k = 0 \/ Tail1(t, i, k) \in P THEN Tail1(t, i, k) ELSE SuffixFrom(P, t, i, k - 1)
Suffix(t, i) == SuffixFrom(WordPrefixes, t, i, Reach(i))

\* the answers, from the derived sets and lengths
AllIn(W, lens, t) == [i \in 1 .. Len(t) |-> EndingFrom(W, lens, t, i, 1)]
SingleIn(W, P, top, t) ==
  [i \in 1 .. Len(t) |-> LET w == SuffixFrom(P, t, i, IF i < top THEN i ELSE top) IN
                            IF w \in W THEN Owner(w) + 1 ELSE 0]
CountsIn(m) == [x \in 1 .. n |-> Cardinality({i \in DOMAIN m : \E j \in DOMAIN m[i] : m[i][j] = x - 1})]

AllMatches(t) == AllIn(Words, Lengths, t)
\* 0: nothing; otherwise index + 1
SingleMatches(t) == SingleIn(Words, WordPrefixes, Longest, t)
Counts(t) == LET m == AllMatches(t) IN CountsIn(m)

Fresh(k) == n' = k /\ pats' = << >> /\ built' = FALSE
From(ws) == n' = Len(ws) /\ pats' = [i \in 1 .. Len(ws) |-> << ws[i], i - 1 >>] /\ built' = TRUE
Insert(w, k) == w # << >> /\ ~built /\ pats' = Append(pats, << w, k >>) /\ UNCHANGED << n, built >>
Build == ~built /\ built' = TRUE /\ UNCHANGED << n, pats >>
===================================================================================
