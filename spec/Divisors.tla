--------------------------------- MODULE Divisors ---------------------------------
(* Greatest common divisors, least common multiples and Bezout coefficients of   *)
(* integers of any primitive type.  Which number is the gcd of a and b is        *)
(* certified by w = << g, p, q, u, v >>: |a| = p g, |b| = q g and u p and v q    *)
(* differ by one, so that p and q have no common divisor.                        *)
EXTENDS BigInt
Cert(a, b, w) ==
  \/ a[2] = << >> /\ b[2] = << >> /\ w[1] = << >>
  \/ /\ w[1] # << >> /\ MulN(w[2], w[1]) = a[2] /\ MulN(w[3], w[1]) = b[2]
     /\ LET x == MulN(w[4], w[2])
            y == MulN(w[5], w[3]) IN x = AddN(y, OneN) \/ y = AddN(x, OneN)
\* up to sign, and without one if no argument has one
SignOk(a, b, z) == a[1] = 0 /\ b[1] = 0 => z[1] = 0
IsGcd(a, b, w, z) == Cert(a, b, w) /\ IsInt(z) /\ z[2] = w[1] /\ SignOk(a, b, z) /\ (b[2] = << >> => z = a)
LcmOf(w) == MulN(MulN(w[2], w[3]), w[1])
LcmFits(t, w) == Fits(t, MkInt(0, LcmOf(w)))
IsLcm(a, b, w, z) == Cert(a, b, w) /\ IsInt(z) /\ z[2] = LcmOf(w) /\ SignOk(a, b, z)
IsBezout(a, b, w, x, y, g) == /\ Cert(a, b, w) /\ IsInt(x) /\ IsInt(y) /\ IsInt(g)
                              /\ g[2] = w[1] /\ AddI(MulI(a, x), MulI(b, y)) = g
===================================================================================
