-------------------------------- MODULE NodeArray --------------------------------
(* Heavy-light decomposition, as a user sees it: a value per node of a rooted    *)
(* tree; assignments to a node, maps applied to the nodes of a path or of a      *)
(* subtree, products (over a commutative monoid) of a path or of a subtree.      *)
(* Family 0: values are bags of elements, an element is its letter followed by   *)
(* the updates applied to it (shown as the sorted sequence).  Family 1: words of *)
(* residues of which the sum modulo P and the length are shown.  Family 2: words *)
(* of numbers from 0 of which the largest is shown (-1: none), under clamps to   *)
(* << lo, hi >>, which do not keep the identity.                                 *)
EXTENDS Tree

VARIABLES fam, T, a      \* a[v + 1]: value of node v
nvars == << fam, T, a >>
P == 30011
Topmost(w) == FoldLeft(LAMBDA m, x : IF x > m THEN x ELSE m, -1, w)
Clamped(u, x) == LET y == IF x < u[1] THEN u[1] ELSE x IN IF y > u[2] THEN u[2] ELSE y
Mapped(u, w) == IF fam = 0 THEN [i \in DOMAIN w |-> w[i] \o u]
                ELSE IF fam = 2 THEN << Clamped(u, Topmost(w)) >>
                ELSE [i \in DOMAIN w |-> (u[1] * w[i] + u[2]) % P]
Made(f, t, v) == fam' = f /\ T' = t /\ a' = v
Set(u, x) == u \in Nodes(T) /\ a' = [a EXCEPT ![u + 1] = x] /\ UNCHANGED << fam, T >>
MapOn(S, f) == a' = [i \in DOMAIN a |-> IF i - 1 \in S THEN Mapped(f, a[i]) ELSE a[i]] /\ UNCHANGED << fam, T >>
ApplyPath(u, v, f) == {u, v} \subseteq Nodes(T) /\ MapOn(PathSet(T, u, v), f)
ApplySubtree(u, f) == u \in Nodes(T) /\ MapOn(Below(T, u), f)
\* the combined value of the nodes in S: all their elements, order immaterial
Combined(S) == FoldLeft(LAMBDA w, v : IF v \in S THEN w \o a[v + 1] ELSE w, << >>, T.order)
RECURSIVE LexLess(_, _)
LexLess(x, y) == IF y = << >> THEN FALSE ELSE IF x = << >> THEN TRUE
                 ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE LexLess(Tail(x), Tail(y))
Seen(w) == IF fam = 0 THEN SortSeq(w, LexLess)
           ELSE IF fam = 2 THEN << Topmost(w) >>
           ELSE << FoldLeft(LAMBDA s, x : (s + x) % P, 0, w), Len(w) >>
ProdIs(S, res) ==
  /\ res = IF fam = 0 THEN Seen(Combined(S))
           ELSE IF fam = 2
           THEN << FoldLeft(LAMBDA m, v : LET t == Topmost(a[v + 1]) IN IF t > m THEN t ELSE m, -1, SetToSeq(S)) >>
           ELSE LET V == SetToSeq(S)
                IN << FoldLeft(LAMBDA s, v : FoldLeft(LAMBDA t, x : (t + x) % P, s, a[v + 1]), 0, V),
                      FoldLeft(LAMBDA k, v : k + Len(a[v + 1]), 0, V) >>
  /\ UNCHANGED nvars
=================================================================================
