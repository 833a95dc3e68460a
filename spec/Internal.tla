---------------------------------- MODULE Internal ----------------------------------
(* The number theory behind the modular integers: primality of 31-bit numbers by    *)
(* trial division, generators of the multiplicative group modulo a prime, and the    *)
(* gcd-inverse pair.  Moduli are carried as mm = m - 1 (see Modular), wide integers  *)
(* as in BigInt.                                                                      *)
EXTENDS Modular, BigInt
\* the integer square root
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF lo = hi THEN lo
                     ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid * mid <= n THEN RootIn(n, mid, hi) ELSE RootIn(n, lo, mid - 1)
Root(n) == RootIn(n, 0, 46340)
Prime(n) == n >= 2 /\ LET top == Root(n) IN \A d \in 2 .. top : n % d # 0
\* the prime divisors of n >= 1, by trial division
RECURSIVE Strip(_, _)
Strip(n, d) == IF n % d = 0 THEN Strip(n \div d, d) ELSE n
RECURSIVE StripAll(_, _)
StripAll(n, ds) == IF ds = {} THEN n ELSE LET d == CHOOSE d \in ds : TRUE IN StripAll(Strip(n, d), ds \ {d})
PrimeDivisors(n) == LET top == Root(n)
                        small == {d \in 2 .. top : n % d = 0 /\ Prime(d)}
                        rest == StripAll(n, small) IN IF rest = 1 THEN small ELSE small \cup {rest}
Generates(p, g, ds) == \A d \in ds : PowM(p - 1, g, OfInt((p - 1) \div d)) # 1
\* the primes whose generator the library may tabulate
Tabulated == {2, 167772161, 469762049, 754974721, 998244353}
IsPrimitiveRoot(p, g) ==
  LET ds == PrimeDivisors(p - 1) IN
  /\ 1 <= g /\ g < p /\ Generates(p, g, ds)
  /\ p \notin Tabulated => \A h \in 1 .. g - 1 : ~Generates(p, h, ds)
\* (g, x) for a and positive b; w certifies the gcd of |a| mod b and b: << g, ... >> as in Divisors
IsInvGcd(a, b, g, x) ==
  /\ IsInt(g) /\ IsInt(x) /\ g[1] = 0 /\ x[1] = 0
  /\ g[2] = GcdBig(b, ModI(a, b))
  /\ LessN(x[2], DivN(b, g[2])[1])
  /\ ModN(MulN(x[2], ModI(a, b)), b) = ModN(g[2], b)
===================================================================================
