---------------------------------- MODULE BigInt ----------------------------------
(* Integers of any size for TLC: a natural number is the sequence of its         *)
(* base-4096 digits, least significant first, without leading zeros; an integer  *)
(* is << negative (0 or 1), natural >>, with << 0, << >> >> for zero.            *)
EXTENDS Integers, Sequences

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Trim(_)
Trim(a) == IF a # << >> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
\* carries: turns column sums (any integers) into digits; the total must not be negative
RECURSIVE Carry(_, _, _, _)
Carry(col, i, c, acc) ==
  IF i > Len(col) /\ c = 0 THEN acc
  ELSE LET t == c + Digit(col, i) IN Carry(col, i + 1, t \div 4096, Append(acc, t % 4096))
Norm(col) == Trim(Carry(col, 1, 0, << >>))
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
AddN(a, b) == Norm([i \in 1 .. Longer(a, b) |-> Digit(a, i) + Digit(b, i)])
\* a - b for a >= b
SubN(a, b) == Norm([i \in 1 .. Len(a) |-> Digit(a, i) - Digit(b, i)])
DigitAt(b, j) == IF j >= 1 /\ j <= Len(b) THEN b[j] ELSE 0
RECURSIVE ColumnSum(_, _, _, _, _)
ColumnSum(a, b, k, i, acc) == IF i > Len(a) \/ i > k THEN acc
                              ELSE ColumnSum(a, b, k, i + 1, acc + a[i] * DigitAt(b, k + 1 - i))
MulN(a, b) == IF a = << >> \/ b = << >> THEN << >>
              ELSE Norm([k \in 1 .. Len(a) + Len(b) - 1 |-> ColumnSum(a, b, k, 1, 0)])
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] = b[i] THEN LessFrom(a, b, i - 1) ELSE a[i] < b[i]
LessN(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessFrom(a, b, Len(a)))
RECURSIVE ZeroDigits(_)
ZeroDigits(k) == IF k = 0 THEN << >> ELSE << 0 >> \o ZeroDigits(k - 1)
\* 2^k
PowN(k) == ZeroDigits(k \div 12) \o << 2 ^ (k % 12) >>
RECURSIVE OfInt(_)
OfInt(x) == IF x = 0 THEN << >> ELSE << x % 4096 >> \o OfInt(x \div 4096)
IsNat(a) == (\A i \in DOMAIN a : a[i] \in 0 .. 4095) /\ (a # << >> => a[Len(a)] # 0)
OneN == << 1 >>

MkInt(neg, a) == << IF a = << >> THEN 0 ELSE neg, a >>
IsInt(z) == Len(z) = 2 /\ z[1] \in {0, 1} /\ IsNat(z[2]) /\ (z[2] = << >> => z[1] = 0)
MulI(y, z) == MkInt((y[1] + z[1]) % 2, MulN(y[2], z[2]))
AddI(y, z) == IF y[1] = z[1] THEN MkInt(y[1], AddN(y[2], z[2]))
              ELSE IF LessN(y[2], z[2]) THEN MkInt(z[1], SubN(z[2], y[2])) ELSE MkInt(y[1], SubN(y[2], z[2]))
NegI(z) == MkInt(1 - z[1], z[2])
LessI(y, z) == IF y[1] # z[1] THEN y[1] = 1 ELSE IF y[1] = 0 THEN LessN(y[2], z[2]) ELSE LessN(z[2], y[2])
Abs(z) == z[2]
ToI(x) == IF x < 0 THEN MkInt(1, OfInt(-x)) ELSE MkInt(0, OfInt(x))
\* remainder of a natural by a small one (up to 2^19)
RECURSIVE ModFrom(_, _, _, _)
ModFrom(a, m, i, r) == IF i = 0 THEN r ELSE ModFrom(a, m, i - 1, (r * 4096 + a[i]) % m)
ModSmall(a, m) == ModFrom(a, m, Len(a), 0)
\* quotient and remainder: << q, r >> with a = q b + r, 0 <= r < b, for b > 0, digit by digit
RECURSIVE QuotDigit(_, _, _, _)
QuotDigit(r, b, lo, hi) ==    \* the largest d in lo .. hi with d b <= r
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN
       IF LessN(r, MulN(Trim(<< m >>), b)) THEN QuotDigit(r, b, lo, m - 1) ELSE QuotDigit(r, b, m, hi)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) ==
  IF i = 0 THEN << Trim(q), r >>
  ELSE LET r1 == Trim(<< a[i] >> \o r)
           d  == IF LessN(r1, b) THEN 0 ELSE QuotDigit(r1, b, 0, 4095) IN
       DivFrom(a, b, i - 1, << d >> \o q, IF d = 0 THEN r1 ELSE SubN(r1, MulN(<< d >>, b)))
DivN(a, b) == DivFrom(a, b, Len(a), << >>, << >>)
ModN(a, b) == DivN(a, b)[2]
RECURSIVE GcdBig(_, _)
GcdBig(a, b) == IF b = << >> THEN a ELSE GcdBig(b, ModN(a, b))
\* remainder of an integer by a positive natural, in 0 .. b - 1
ModI(z, b) == LET r == ModN(z[2], b) IN IF z[1] = 0 \/ r = << >> THEN r ELSE SubN(b, r)
SubI(y, z) == AddI(y, NegI(z))
\* the inverse of a modulo b, for coprime a and b (b > 1): r0 = s0 a, r1 = s1 a (mod b) throughout
RECURSIVE InverseFrom(_, _, _, _)
InverseFrom(r0, s0, r1, s1) ==
  IF r1 = << >> THEN s0
  ELSE LET qr == DivN(r0, r1) IN InverseFrom(r1, s1, qr[2], SubI(s0, MulI(MkInt(0, qr[1]), s1)))
InverseN(a, b) == ModI(InverseFrom(b, << 0, << >> >>, a, << 0, OneN >>), b)
\* the twelve primitive types: 0-5 i8 i16 i32 i64 i128 isize, 6-11 unsigned
TypeBits == << 8, 16, 32, 64, 128, 64 >>
Signed(t) == t < 6
MaxOf(t) == IF Signed(t) THEN SubN(PowN(TypeBits[t + 1] - 1), OneN) ELSE SubN(PowN(TypeBits[t - 5]), OneN)
MinOf(t) == IF Signed(t) THEN MkInt(1, PowN(TypeBits[t + 1] - 1)) ELSE MkInt(0, << >>)
Fits(t, z) == ~LessI(z, MinOf(t)) /\ ~LessI(MkInt(0, MaxOf(t)), z)
===================================================================================
