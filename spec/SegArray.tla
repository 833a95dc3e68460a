-------------------------------- MODULE SegArray --------------------------------
(* A segment tree (plain or lazy), as a user sees it: an array a of values of a  *)
(* monoid, changed by point assignments and by maps applied to positions or      *)
(* ranges, queried for ordered products and for boundaries.                      *)
(*                                                                               *)
(* Values are symbolic.  Family 0: a value is a word of elements, an element is  *)
(* the sequence of its letter and the updates applied to it, oldest first.       *)
(* Products concatenate, updates append to every element.  This is the free      *)
(* monoid acted on by the free monoid of updates: an implementation that is      *)
(* generic in the monoid and gives these results gives the right results for     *)
(* every monoid with compatible maps.  Family 1: words of residues modulo P      *)
(* under affine maps, of which only a positional hash and the length can be      *)
(* observed (for long arrays).  Family 2: words of numbers from 0 of which the   *)
(* largest is observed (-1 when there is none), under clamps to << lo, hi >>:    *)
(* these distribute over products but turn nothing into something, that is, they *)
(* do not keep the identity.                                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt

VARIABLES fam, a
avars == << fam, a >>

P == 30011
BASE == 211
n == Len(a)
Pos == 0 .. n - 1
Cat(ws) == FoldLeft(LAMBDA x, y : x \o y, << >>, ws)
HashOf(w) == FoldLeft(LAMBDA h, x : (h * BASE + x) % P, 0, w)
\* what an observer sees of the word w
Topmost(w) == FoldLeft(LAMBDA m, x : IF x > m THEN x ELSE m, -1, w)
Clamped(u, x) == LET y == IF x < u[1] THEN u[1] ELSE x IN IF y > u[2] THEN u[2] ELSE y
Seen(f, w) == CASE f = 0 -> w
                [] f = 1 -> << HashOf(w), Len(w) >>
                [] f = 2 -> << Topmost(w) >>
\* the map u applied to the word w
Mapped(f, u, w) == CASE f = 0 -> [i \in DOMAIN w |-> w[i] \o u]
                     [] f = 1 -> [i \in DOMAIN w |-> (u[1] * w[i] + u[2]) % P]
                     [] f = 2 -> << Clamped(u, Topmost(w)) >>

From(f, v) == fam' = f /\ a' = v
Created(f, k) == From(f, [i \in 1 .. k |-> << >>])
Set(p, x) == p \in Pos /\ a' = [a EXCEPT ![p + 1] = x] /\ fam' = fam
Range_(l, r, u) == /\ 0 <= l /\ l <= r /\ r <= n
                   /\ a' = [i \in 1 .. n |-> IF l < i /\ i <= r THEN Mapped(fam, u, a[i]) ELSE a[i]]
                   /\ fam' = fam
Apply(p, u) == p \in Pos /\ Range_(p, p + 1, u)
Prod(l, r) == Cat(SubSeq(a, l + 1, r))
\* the same as Seen(fam, Prod(l, r)), without building the long word
ProdSeen(l, r) ==
  IF fam = 0 THEN Prod(l, r)
  ELSE IF fam = 2
  THEN << FoldLeft(LAMBDA m, w : LET t == Topmost(w) IN IF t > m THEN t ELSE m, -1, SubSeq(a, l + 1, r)) >>
  ELSE LET s == SubSeq(a, l + 1, r)
       IN << FoldLeft(LAMBDA h, w : FoldLeft(LAMBDA g, x : (g * BASE + x) % P, h, w), 0, s),
             FoldLeft(LAMBDA k, w : k + Len(w), 0, s) >>
ProdIs(l, r, res) == 0 <= l /\ l <= r /\ r <= n /\ res = ProdSeen(l, r) /\ UNCHANGED avars
GetIs(p, res) == p \in Pos /\ res = Seen(fam, a[p + 1]) /\ UNCHANGED avars

\* ---- boundary searches.  A predicate is a kind and a parameter; dir 0 is the search to the
\* right from a fixed left end, dir 1 the search to the left from a fixed right end.
Weight(e) == e[1] + IF Len(e) > 1 THEN e[Len(e)] ELSE 0
Running(w, k) ==   \* no running sum of signed weights exceeds k
  FoldLeft(LAMBDA s, e : LET t == s[1] + (Weight(e) % 7) - 3 IN << t, s[2] /\ t <= k >>, << 0, TRUE >>, w)[2]
Holds(kind, dir, k, w) ==
  CASE kind = 0 -> Len(w) <= k
    [] kind = 1 -> FoldLeft(LAMBDA s, e : s + (Weight(e) % 4), 0, w) <= k
    [] kind = 2 -> Running(IF dir = 0 THEN w ELSE Reverse(w), k)
    [] kind = 3 -> \A i \in DOMAIN w : w[i][Len(w[i])] # k
    [] OTHER -> TRUE
\* by definition, for words that are observable letter by letter
RightEnd(l, kind, k) == Max({r \in l .. n : Holds(kind, 0, k, Prod(l, r))})
LeftEnd(r, kind, k) == Min({l \in 0 .. r : Holds(kind, 1, k, Prod(l, r))})
\* kind 0 and 4 for long arrays: the largest number of leading entries with at most k letters
Lead(s, k) == FoldLeft(LAMBDA st, w : IF st[3] /\ st[2] + Len(w) <= k THEN << st[1] + 1, st[2] + Len(w), TRUE >>
                                      ELSE << st[1], st[2], FALSE >>, << 0, 0, TRUE >>, s)[1]
\* kind 5: the number of leading entries before the first that is above k (the parameter is at
\* least -1, what no letter gives)
LeadBelow(s, k) == FoldLeft(LAMBDA st, w : IF st[2] /\ Topmost(w) <= k THEN << st[1] + 1, TRUE >>
                                           ELSE << st[1], FALSE >>, << 0, TRUE >>, s)[1]
RightIs(l, kind, k, res) ==
  /\ l \in 0 .. n /\ UNCHANGED avars
  /\ res = IF fam = 0 THEN RightEnd(l, kind, k)
           ELSE IF kind = 4 THEN n
           ELSE IF kind = 5 THEN l + LeadBelow(SubSeq(a, l + 1, n), k) ELSE l + Lead(SubSeq(a, l + 1, n), k)
LeftIs(r, kind, k, res) ==
  /\ r \in 0 .. n /\ UNCHANGED avars
  /\ res = IF fam = 0 THEN LeftEnd(r, kind, k)
           ELSE IF kind = 4 THEN 0
           ELSE IF kind = 5 THEN r - LeadBelow(Reverse(SubSeq(a, 1, r)), k) ELSE r - Lead(Reverse(SubSeq(a, 1, r)), k)
=================================================================================
