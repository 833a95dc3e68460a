---------------------------------- MODULE Heap ----------------------------------
(* Min-heaps, as a user sees them: heap h holds a bag of elements <<key, id>>    *)
(* ordered by key only; ids keep equal keys apart.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLE hp

IsLeast(x, S) == (x \in S /\ \A y \in S : x[1] <= y[1]) = TRUE
Least(S) == {x \in S : IsLeast(x, S)}
Created(h) == hp' = [hp EXCEPT ![h] = {}]
Push(h, k, id) == << k, id >> \notin hp[h] /\ hp' = [hp EXCEPT ![h] = @ \cup {<< k, id >>}]
\* a list of elements that are all new
Pushes(h, xs) == /\ hp' = [hp EXCEPT ![h] = @ \cup ToSet(xs)]
                 /\ Cardinality(hp'[h]) = Cardinality(hp[h]) + Len(xs)
\* r is << >> when the heap is empty, else << x >>
Pop(h, r) == IF hp[h] = {} THEN r = << >> /\ UNCHANGED hp
             ELSE Len(r) = 1 /\ IsLeast(r[1], hp[h]) /\ hp' = [hp EXCEPT ![h] = @ \ {r[1]}]
Peek(h, r) == /\ IF hp[h] = {} THEN r = << >> ELSE Len(r) = 1 /\ IsLeast(r[1], hp[h])
              /\ UNCHANGED hp
Append_(h, g) == h # g /\ hp' = [hp EXCEPT ![h] = @ \cup hp[g], ![g] = {}]
Clear(h) == hp' = [hp EXCEPT ![h] = {}]
\* conversion consumes the heap: every element once, in the reverse of pop order
Sorted(h, r) == /\ Len(r) = Cardinality(hp[h]) /\ ToSet(r) = hp[h]
                /\ (\A i \in 1 .. Len(r) - 1 : r[i][1] >= r[i + 1][1]) = TRUE
                /\ hp' = [hp EXCEPT ![h] = {}]
Length(h, k) == k = Cardinality(hp[h]) /\ UNCHANGED hp
=================================================================================
