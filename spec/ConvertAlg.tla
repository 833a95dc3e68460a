-------------------------------- MODULE ConvertAlg --------------------------------
(* Conversion of a fixed-width integer to its residue.  A value of a type with W *)
(* bits is given by its bit pattern u; the residue is computed the way the       *)
(* library does: signed types are widened and divided with a non-negative        *)
(* remainder, unsigned ones divided directly - and, independently, digit by      *)
(* digit, the way the trace specification does.  Every 8-bit value of both       *)
(* signs, every modulus up to MaxM plus the extreme ones, replayed on all twelve *)
(* integer types and on decimal text.                                            *)
EXTENDS GenLib, Modular
CONSTANTS MaxM, Wide
VARIABLES mm, z, pos, acc      \* z = << negative?, digits >>; pos: digits still to consume
vars == << mm, z, pos, acc >>
Digits(k) == IF k = 0 THEN << >> ELSE IF k < 4096 THEN << k >> ELSE << k % 4096, k \div 4096 >>
Extreme == {2147483647, 2147483646, 998244352, 1000000006, 65535, 4094, 4095, 4096}
Small == {<< 0, Digits(k) >> : k \in 0 .. 255} \cup {<< 1, Digits(k) >> : k \in 1 .. 128}
\* extremes of the wider types and their neighbours, by digits: 2^15, 2^16, 2^31, 2^32, 2^63, 2^64, 2^127, 2^128
RECURSIVE Zeros(_)
Zeros(k) == IF k = 0 THEN << >> ELSE << 0 >> \o Zeros(k - 1)
RECURSIVE Nines(_)
Nines(k) == IF k = 0 THEN << >> ELSE << 4095 >> \o Nines(k - 1)
\* 2^k, 2^k - 1
Pow2(k) == Zeros(k \div 12) \o << 2 ^ (k % 12) >>
Pow2Less1(k) == IF k % 12 = 0 THEN Nines(k \div 12) ELSE Nines(k \div 12) \o << 2 ^ (k % 12) - 1 >>
\* << type, value >>: types 0-5 are i8 i16 i32 i64 i128 isize, 6-11 the unsigned ones
Bits == << 8, 16, 32, 64, 128, 64 >>
Extremes == UNION {{<< t, << 1, Pow2(Bits[t + 1] - 1) >> >>, << t, << 1, Pow2Less1(Bits[t + 1] - 1) >> >>,
                    << t, << 0, Pow2Less1(Bits[t + 1] - 1) >> >>, << t, << 0, Pow2Less1(Bits[t + 1] - 2) >> >>,
                    << t, << 1, << 1 >> >> >>, << t, << 0, << >> >> >>,
                    << t + 6, << 0, Pow2Less1(Bits[t + 1]) >> >>, << t + 6, << 0, Pow2(Bits[t + 1] - 1) >> >>,
                    << t + 6, << 0, Pow2Less1(Bits[t + 1] - 1) >> >>, << t + 6, << 0, << >> >> >>} : t \in 0 .. 5}
Values == Small \cup {x[2] : x \in Extremes}
Init == /\ mm \in (0 .. MaxM - 1) \cup (IF Wide THEN Extreme ELSE {})
        /\ z \in Values /\ pos = Len(z[2]) /\ acc = 0
Digit == /\ pos > 0 /\ pos' = pos - 1
         /\ acc' = AddM(mm, Shift12(mm, acc, 12), RedM(mm, z[2][pos])) /\ UNCHANGED << mm, z >>
\* which types hold the value
Below(ds, k) == Len(ds) < k \div 12 + 1 \/ (Len(ds) = k \div 12 + 1 /\ ds[Len(ds)] < 2 ^ (k % 12))
Holds(t, x) == IF t < 6 THEN IF x[1] = 1 THEN Below(x[2], Bits[t + 1] - 1) \/ x[2] = Pow2(Bits[t + 1] - 1)
                                         ELSE Below(x[2], Bits[t + 1] - 1)
               ELSE x[1] = 0 /\ Below(x[2], Bits[t - 5])
Res == Residue(mm, z)
OnType(f, t) == IF ~Holds(t, z) THEN << >> ELSE
  [k \in 1 .. 4 |-> E("new", << f, 0, t, z, k - 1 >>, << Res >>)] \o
  << E("raw", << f, 1, mm, 0 >>, << mm >>),
     E("addp", << f, 2, 1, t, z, 0 >>, << AddM(mm, mm, Res) >>), E("addp", << f, 2, 1, t, z, 1 >>, << AddM(mm, mm, Res) >>),
     E("subp", << f, 2, 1, t, z, 0 >>, << SubM(mm, mm, Res) >>), E("subp", << f, 2, 1, t, z, 1 >>, << SubM(mm, mm, Res) >>),
     E("mulp", << f, 2, 1, t, z, 0 >>, << MulM(mm, mm, Res) >>), E("mulp", << f, 2, 1, t, z, 1 >>, << MulM(mm, mm, Res) >>) >>
RECURSIVE Types(_, _)
Types(f, t) == IF t = 12 THEN << >> ELSE OnType(f, t) \o Types(f, t + 1)
Parse(f) == IF Holds(3, z) THEN << E("parse", << f, 3, z >>, << Res >>) >> ELSE << >>
StaticIndex == << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, -1, -1, 13 >>
StaticOf == IF mm + 1 \in DOMAIN StaticIndex THEN StaticIndex[mm + 1] ELSE
            CASE mm = 998244352 -> 31 [] mm = 1000000006 -> 30 [] mm = 65535 -> 19 [] mm = 2147483646 -> 23 [] OTHER -> -1
Script == << E("set", << 0, mm, 0 >>, << >>) >> \o Types(0, 0) \o Parse(0) \o
          (IF mm < 2147483647 /\ StaticOf >= 0
           THEN << E("static", << 3, mm, StaticOf >>, << mm >>) >> \o Types(3, 0) \o Parse(3) ELSE << >>)
Report == pos = 0 /\ Emit([k |-> 0], Script) /\ UNCHANGED vars
Next == Digit \/ Report
Spec == Init /\ [][Next]_vars
\* digit by digit = by definition, where the definition fits the checker's integers
RECURSIVE Nat2(_, _)
Nat2(ds, k) == IF k > Len(ds) THEN 0 ELSE ds[k] + 4096 * Nat2(ds, k + 1)
Agrees == pos = 0 =>
  /\ ResNat(mm, z[2]) = acc /\ Canonical(mm, Residue(mm, z))
  /\ Len(z[2]) <= 2 /\ mm < 2147483647 =>
       Residue(mm, z) = (IF z[1] = 1 THEN 0 - Nat2(z[2], 1) ELSE Nat2(z[2], 1)) % (mm + 1)
===================================================================================
