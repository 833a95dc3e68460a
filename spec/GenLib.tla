--------------------------------- MODULE GenLib ---------------------------------
(* Printing behaviours of a specification as scripts with expected results.      *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
E(op, args, res) == [op |-> op, a |-> args, r |-> res, st |-> "ok"]
\* a call the library must refuse
Refuses(op, args) == [op |-> op, a |-> args, r |-> << >>, st |-> "panic"]
\* every index refused by a structure of k elements: just above, around the powers of two, and
\* (as negative numbers) near the top of the machine word
RECURSIVE PowerFrom(_, _)
PowerFrom(k, p) == IF p >= k THEN p ELSE PowerFrom(k, 2 * p)
Tops(k) == LET p == PowerFrom(k, 1) IN
  << k, k + 1, k + p, 2 * p, 2 * p + k, 3 * p, -1, -p, -p - 1, -2 * p, 2147483647 >>
\* a sequence of scripts, one for each entry of s (a sequence), put together
OverAll(s, F(_)) == FoldLeft(LAMBDA acc, x : acc \o F(x), << >>, s)
Span(k) == [i \in 1 .. k + 1 |-> i - 1]      \* << 0, .., k >>
Flag(b) == IF b THEN << 1 >> ELSE << 0 >>
Emit(meta, events) == PrintT("V " \o ToJson([m |-> meta, ev |-> events]))
=================================================================================
