--------------------------------- MODULE Modular ---------------------------------
(* Exact arithmetic in Z/m for 1 <= m <= 2^31.  TLC's integers have 32 bits, so  *)
(* the modulus is carried as mm = m - 1 and no intermediate value exceeds        *)
(* 2^31 - 1: sums are reduced before they are formed, products are built by      *)
(* doubling.  Wide integers are sequences of base-4096 digits, least significant *)
(* first.                                                                        *)
EXTENDS Integers, Sequences

AddM(mm, a, b) == IF a > mm - b THEN a - (mm - b) - 1 ELSE a + b
NegM(mm, a) == IF a = 0 THEN 0 ELSE mm - a + 1
SubM(mm, a, b) == IF a >= b THEN a - b ELSE mm - (b - a) + 1
RECURSIVE MulM(_, _, _)
MulM(mm, a, b) ==
  IF a < 32768 /\ b < 32768 /\ mm < 2147483647 THEN (a * b) % (mm + 1)
  ELSE IF b = 0 THEN 0
  ELSE LET h == MulM(mm, a, b \div 2)
           d == AddM(mm, h, h) IN IF b % 2 = 1 THEN AddM(mm, d, a) ELSE d
OneM(mm) == IF mm = 0 THEN 0 ELSE 1
\* residue of a small non-negative integer
RedM(mm, x) == IF x <= mm THEN x ELSE x % (mm + 1)
\* residue of a wide natural number: Horner from the most significant digit
RECURSIVE Shift12(_, _, _)
Shift12(mm, a, k) == IF k = 0 THEN a ELSE Shift12(mm, AddM(mm, a, a), k - 1)
RECURSIVE ResFrom(_, _, _, _)
ResFrom(mm, ds, k, acc) == IF k = 0 THEN acc
                           ELSE ResFrom(mm, ds, k - 1, AddM(mm, Shift12(mm, acc, 12), RedM(mm, ds[k])))
ResNat(mm, ds) == ResFrom(mm, ds, Len(ds), 0)
\* residue of a wide integer << negative?, digits >>
Residue(mm, z) == IF z[1] = 1 THEN NegM(mm, ResNat(mm, z[2])) ELSE ResNat(mm, z[2])
\* x to the power of a wide natural number, most significant bit first
RECURSIVE PowBits(_, _, _, _, _)
PowBits(mm, x, d, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET sq == MulM(mm, acc, acc)
           bit == (d \div 2 ^ (k - 1)) % 2 IN
       PowBits(mm, x, d, k - 1, IF bit = 1 THEN MulM(mm, sq, x) ELSE sq)
RECURSIVE PowFrom(_, _, _, _, _)
PowFrom(mm, x, ds, k, acc) == IF k = 0 THEN acc ELSE PowFrom(mm, x, ds, k - 1, PowBits(mm, x, ds[k], 12, acc))
PowM(mm, x, ds) == PowFrom(mm, x, ds, Len(ds), OneM(mm))
RECURSIVE GcdN(_, _)
GcdN(x, y) == IF y = 0 THEN x ELSE GcdN(y, x % y)
\* is x coprime to m = mm + 1?
Unit(mm, x) == IF x = 0 THEN mm = 0 ELSE GcdN(x, ((mm % x) + 1) % x) = 1
Canonical(mm, x) == 0 <= x /\ x <= mm
RECURSIVE FoldM(_, _, _, _, _)
FoldM(F(_, _, _), mm, xs, k, acc) == IF k > Len(xs) THEN acc ELSE FoldM(F, mm, xs, k + 1, F(mm, acc, xs[k]))
==================================================================================
