-------------------------------- MODULE Congruences --------------------------------
(* Systems of linear congruences a[i] x = b[i] (mod m[i]) over integers of any     *)
(* size (see BigInt).  A single one is solvable iff g = gcd(a, m) divides b, and   *)
(* then says x = c (mod n) with n = m / g; those have a common solution iff every  *)
(* two of them agree modulo gcd(n, n'); the solutions then are one residue class   *)
(* modulo the least common multiple of the n.                                      *)
EXTENDS BigInt
\* a congruence is << a, b, m >>: two integers and a positive natural
Reduced(c) == LET g == GcdBig(c[3], ModI(c[1], c[3])) IN
  [ok |-> ModI(c[2], g) = << >>,
   n  |-> DivN(c[3], g)[1],
   c  |-> LET n == DivN(c[3], g)[1]
              a == DivN(ModI(c[1], c[3]), g)[1]
              b == DivN(ModI(c[2], c[3]), g)[1] IN
          IF n = OneN THEN << >> ELSE ModN(MulN(b, InverseN(a, n)), n)]
RECURSIVE Period(_, _, _)
Period(red, i, acc) == IF i > Len(red) THEN acc
                       ELSE Period(red, i + 1, MulN(acc, DivN(red[i].n, GcdBig(red[i].n, acc))[1]))
Agree(p, q) == LET g == GcdBig(p.n, q.n) IN ModN(p.c, g) = ModN(q.c, g)
Satisfies(sys, x) == \A i \in DOMAIN sys : ModI(SubI(MulI(sys[i][1], x), sys[i][2]), sys[i][3]) = << >>
\* res = << >> (none) or << x, period >>
IsAnswer(sys, res) ==
  LET red == [i \in DOMAIN sys |-> Reduced(sys[i])]
      solvable == /\ \A i \in DOMAIN red : red[i].ok
                  /\ \A i, j \in DOMAIN red : i < j => Agree(red[i], red[j]) IN
  IF ~solvable THEN res = << >>
  ELSE /\ Len(res) = 2 /\ IsInt(res[1]) /\ IsInt(res[2])
       /\ res[2] = MkInt(0, Period(red, 1, OneN))
       /\ res[1][1] = 0 /\ LessN(res[1][2], res[2][2]) /\ Satisfies(sys, res[1])
===================================================================================
