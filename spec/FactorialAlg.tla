------------------------------- MODULE FactorialAlg -------------------------------
(* The construction: factorials upwards, the inverse of the last one, inverses   *)
(* downwards - for every table size below every prime given - and its queries    *)
(* against Pascal's triangle.                                                    *)
EXTENDS GenLib
CONSTANTS Invalid,    \* TRUE: every request out of contract is made first
          Primes      \* << prime, number of the family in the driver >>
Small == {<<2, 1>>, <<3, 2>>, <<5, 4>>, <<7, 6>>, <<11, 10>>, <<13, 12>>}
Large == Small \cup {<<101, 14>>}
VARIABLES p, which, n, fac, inv, pc
vars == << p, which, n, fac, inv, pc >>
Init == /\ \E q \in Primes : p = q[1] /\ which = q[2]
        /\ n \in 0 .. p - 1 /\ fac = << 1 % p >> /\ inv = << >> /\ pc = "up"
Up == /\ pc = "up" /\ Len(fac) <= n /\ fac' = Append(fac, (fac[Len(fac)] * Len(fac)) % p) /\ UNCHANGED << p, which, n, inv, pc >>
Turn == /\ pc = "up" /\ Len(fac) = n + 1 /\ pc' = "down"
        /\ inv' = << CHOOSE y \in 0 .. p - 1 : (y * fac[n + 1]) % p = 1 % p >> /\ UNCHANGED << p, which, n, fac >>
\* inv holds the inverses of n!, (n-1)!, ... in front of what is done: inv[1] is the latest
Down == /\ pc = "down" /\ Len(inv) <= n
        /\ inv' = << (inv[1] * (n + 1 - Len(inv))) % p >> \o inv /\ UNCHANGED << p, which, n, fac, pc >>
Fac(i) == fac[i + 1]
Inv(i) == inv[i + 1]
Choose(m, k) == (((Fac(m) * Inv(m - k)) % p) * Inv(k)) % p
Perm(m, k) == (Fac(m) * Inv(m - k)) % p
Done == pc = "down" /\ Len(inv) = n + 1
RECURSIVE Queries(_, _)
Queries(m, k) == IF m > n THEN << >> ELSE IF k > m THEN Queries(m + 1, 0)
                 ELSE << E("choose", << m, k >>, << Choose(m, k) >>), E("perm", << m, k >>, << Perm(m, k) >>) >> \o Queries(m, k + 1)
Bads == IF ~Invalid THEN << >> ELSE
  OverAll(Span(n), LAMBDA m : OverAll(Tops(m + 1), LAMBDA k : << Refuses("choose", << m, k >>), Refuses("perm", << m, k >>) >>))
  \o OverAll(Tops(n + 1), LAMBDA m : << Refuses("choose", << m, m >>), Refuses("perm", << m, m >>) >>
       \o OverAll(Span(n + 1), LAMBDA k : << Refuses("choose", << m, k >>), Refuses("perm", << m, k >>) >>))
Report == /\ Done /\ Emit([k |-> 0], << E("new", << which, p - 1, n >>, << p - 1 >>) >> \o Bads \o Queries(0, 0)) /\ UNCHANGED vars
Next == Up \/ Turn \/ Down \/ Report
Spec == Init /\ [][Next]_vars
Inverses == \A i \in 1 .. Len(inv) : (inv[i] * fac[n + 1 - Len(inv) + i]) % p = 1 % p
\* Pascal's triangle and the falling products, as recurrences
Exact == Done => \A m \in 0 .. n : \A k \in 0 .. m :
  /\ Choose(m, k) = IF k = 0 \/ k = m THEN 1 % p ELSE (Choose(m - 1, k - 1) + Choose(m - 1, k)) % p
  /\ Perm(m, k) = IF k = 0 THEN 1 % p ELSE (m * Perm(m - 1, k - 1)) % p
===================================================================================
