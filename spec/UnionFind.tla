------------------------------- MODULE UnionFind -------------------------------
(* Disjoint sets over 0..n-1, as a user sees them.                               *)
(*   lab[i] : least element of i's set                                           *)
(*   rep[i] : representative of i's set; Undet while no call has revealed it     *)
(*            since the set was formed (same value for all members of a set).    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

VARIABLES n, lab, rep
uvars == << n, lab, rep >>

Undet == -1
Elem == 0 .. n - 1
SetOf(i) == {j \in Elem : lab[j] = lab[i]}

Created(k) == n = k /\ lab = [i \in 0 .. k - 1 |-> i] /\ rep = [i \in 0 .. k - 1 |-> i]
New(k) == n' = k /\ lab' = [i \in 0 .. k - 1 |-> i] /\ rep' = [i \in 0 .. k - 1 |-> Undet]

\* merged = TRUE iff x and y were in different sets.  The representative of the merged set is
\* some member of it (r), or is left open (Undet) until a call reveals it.
JoinAs(x, y, merged, r) ==
  /\ x \in Elem /\ y \in Elem
  /\ merged = (lab[x] # lab[y])
  /\ IF merged
     THEN LET lx == lab[x]
              ly == lab[y]
              m  == IF lx < ly THEN lx ELSE ly
              in(i) == lab[i] = lx \/ lab[i] = ly
          IN /\ r = Undet \/ (r \in Elem /\ in(r))
             /\ lab' = [i \in Elem |-> IF in(i) THEN m ELSE lab[i]]
             /\ rep' = [i \in Elem |-> IF in(i) THEN r ELSE rep[i]]
     ELSE UNCHANGED << lab, rep >>
  /\ n' = n

\* A query that reveals the representative r of x.
Find(x, r) ==
  /\ x \in Elem /\ r \in Elem /\ lab[r] = lab[x]
  /\ rep[x] \in {Undet, r}
  /\ rep' = IF rep[x] = r THEN rep ELSE [i \in Elem |-> IF lab[i] = lab[x] THEN r ELSE rep[i]]
  /\ UNCHANGED << n, lab >>

Same(x, y, b) == x \in Elem /\ y \in Elem /\ b = (lab[x] = lab[y]) /\ UNCHANGED uvars
Size(x, s) == x \in Elem /\ s = Cardinality(SetOf(x)) /\ UNCHANGED uvars

\* Joining x0, x1, .., xk (each with the next, all elements distinct or not) merges the sets they
\* lie in; exactly as many of the joins merge something as there were sets, less one.
JoinAll(xs, merges) ==
  /\ (\A k \in DOMAIN xs : xs[k] \in Elem) = TRUE
  \* (bound by \E so that TLC evaluates each of them once)
  /\ \E L \in {{lab[xs[k]] : k \in DOMAIN xs}} : \E m \in {FoldLeft(LAMBDA p, x : IF lab[x] < p THEN lab[x] ELSE p, n, xs)} :
       /\ L # {} /\ merges = Cardinality(L) - 1
       /\ lab' = [i \in Elem |-> IF lab[i] \in L THEN m ELSE lab[i]]
       /\ rep' = IF merges = 0 THEN rep ELSE [i \in Elem |-> IF lab[i] \in L THEN Undet ELSE rep[i]]
  /\ n' = n

\* gs: sequence of sequences listing every set once and every element once.
Groups(gs) ==
  /\ (\A k \in DOMAIN gs : Len(gs[k]) > 0 /\ \A j \in DOMAIN gs[k] : gs[k][j] \in Elem /\ lab[gs[k][j]] = lab[gs[k][1]]) = TRUE
  /\ Cardinality({lab[gs[k][1]] : k \in DOMAIN gs}) = Len(gs)
  /\ UNION {{gs[k][j] : j \in DOMAIN gs[k]} : k \in DOMAIN gs} = Elem
  /\ FoldLeft(LAMBDA acc, g : acc + Len(g), 0, gs) = n
  /\ UNCHANGED uvars

UNext ==
  \E x, y \in Elem : \/ \E m \in BOOLEAN, r \in Elem \cup {Undet} : JoinAs(x, y, m, r)
                     \/ Find(x, y)
USpec == Created(n) /\ [][UNext]_uvars

\* The partition invariant, checked in every state of every model and trace.
Partition ==
  /\ lab \in [Elem -> Elem]
  /\ \A i \in Elem : lab[lab[i]] = lab[i] /\ lab[i] <= i
  /\ \A i \in Elem : rep[i] = Undet \/ (rep[i] \in Elem /\ lab[rep[i]] = lab[i])
  /\ \A i \in Elem : rep[i] = rep[lab[i]]
================================================================================
