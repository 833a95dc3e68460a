-------------------------------- MODULE Factorials --------------------------------
(* A factorial table, as a user sees it: a prime modulus mm + 1 and the size n;  *)
(* binomials and falling products are the unique residues that multiply up to    *)
(* m!.  fac is derived: fac[i + 1] = i! for i <= n.                              *)
EXTENDS Modular, SequencesExt
VARIABLES mm, n, fac
fvars == << mm, n, fac >>
\* long tables keep no list of factorials: their answers are judged by short products
Long == 8000
Made(p1, size) == /\ mm' = p1 /\ n' = size
                  /\ fac' = IF size > Long THEN << >>
                            ELSE FoldLeft(LAMBDA acc, i : Append(acc, MulM(p1, acc[i], i)), << OneM(p1) >>, [i \in 1 .. size |-> i])
Valid(m, k) == 0 <= k /\ k <= m /\ m <= n
F(i) == fac[i + 1]
Down(m, k) == FoldLeft(LAMBDA acc, i : MulM(mm, acc, m + 1 - i), OneM(mm), [i \in 1 .. k |-> i])   \* m (m-1) .. (m-k+1)
IsChoose(m, k, v) ==
  /\ Canonical(mm, v)
  /\ IF n > Long THEN LET t == IF 2 * k <= m THEN k ELSE m - k IN MulM(mm, v, Down(t, t)) = Down(m, t)
     ELSE MulM(mm, v, MulM(mm, F(k), F(m - k))) = F(m)
IsPerm(m, k, v) == Canonical(mm, v) /\ IF n > Long THEN v = Down(m, k) ELSE MulM(mm, v, F(m - k)) = F(m)
===================================================================================
