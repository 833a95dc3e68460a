------------------------------- MODULE StringsTrace -------------------------------
EXTENDS TraceLib, Strings, SequencesExt
\* the same questions, entry by entry, so that long tables stay cheap to judge
IsPrefixTable(s, r) == Len(r) = Len(s) /\ \A i \in 1 .. Len(s) : r[i] = Border(s, i - 1)
IsZTable(s, r) == Len(r) = Len(s) /\ \A i \in 1 .. Len(s) : r[i] = IF i = 1 THEN 0 ELSE Lcp(s, i - 1)
IsLongPrefixTable(s, r) == Len(r) = Len(s) /\ \A i \in 1 .. Len(s) : r[i] \in 0 .. i - 1 /\ BorderEntry(s, r, i - 1)
\* from left to right: w is the stretch [w[1], w[2]) known to repeat the beginning
IsLongZTable(s, r) ==
  /\ Len(r) = Len(s) /\ r[1] = 0
  /\ FoldLeft(LAMBDA w, i : IF w[3] /\ ZEntryAfter(s, r, i, w[1], w[2])
                           THEN IF i + r[i + 1] > w[2] THEN << i, i + r[i + 1], TRUE >> ELSE w
                           ELSE << 0, 0, FALSE >>,
              << 0, 0, TRUE >>, [i \in 1 .. Len(s) - 1 |-> i])[3]
TraceNext ==
  \/ Call("kmp") /\ (IF Len(A(1)) <= 200 THEN IsPrefixTable(A(1), R) ELSE IsLongPrefixTable(A(1), R)) = TRUE
  \/ Call("z") /\ (IF Len(A(1)) <= 200 THEN IsZTable(A(1), R) ELSE IsLongZTable(A(1), R)) = TRUE
  \/ Finished
TraceSpec == TraceStart /\ [][TraceNext]_<< ep, l >>
===================================================================================
