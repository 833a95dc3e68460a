--------------------------------- MODULE FieldAlg ---------------------------------
(* Inverse by the Euclidean loop with its contract, then power by repeated       *)
(* squaring with its loop invariant: for every modulus m up to MaxM, every       *)
(* residue v and every exponent up to MaxE.                                      *)
EXTENDS GenLib, Modular, FiniteSets
CONSTANTS MaxM, MaxE
VARIABLES m, v, s, t, m0, m1,      \* the Euclidean loop
          n, e, base, acc          \* the power loop; n = -1: not started
vars == << m, v, s, t, m0, m1, n, e, base, acc >>
Init == /\ m \in 1 .. MaxM /\ v \in 0 .. m - 1
        /\ s = m /\ t = v /\ m0 = 0 /\ m1 = 1
        /\ n = -1 /\ e = 0 /\ base = 0 /\ acc = 0
RECURSIVE Power(_, _, _)
Power(x, k, q) == IF k = 0 THEN 1 % q ELSE (Power(x, k - 1, q) * x) % q
Inverses == {y \in 0 .. m - 1 : (y * v) % m = 1 % m}
InverseMod == CHOOSE y \in Inverses : TRUE
Digits(k) == IF k = 0 THEN << >> ELSE << k >>
\* the compile-time families of the driver: modulus -> number (with and without the hint "prime")
StaticIndex == << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, -1, -1, 13 >>
On(f) ==
  << E("raw", << f, 0, v, 0 >>, << v >>) >> \o
  [k \in 1 .. 2 |-> IF Inverses # {} THEN E("inv", << f, 2, 0, k - 1 >>, << InverseMod >>)
                                     ELSE Refuses("inv", << f, 2, 0, k - 1 >>)] \o
  [k \in 1 .. 2 * m |-> LET w == (k - 1) \div 2 IN
     IF k % 2 = 1 THEN E("raw", << f, 1, w, 0 >>, << w >>)
     ELSE IF Inverses # {} THEN E("div", << f, 2, 1, 0, w % 6 >>, << (w * InverseMod) % m >>)
     ELSE Refuses("div", << f, 2, 1, 0, w % 6 >>)] \o
  [k \in 1 .. MaxE + 1 |-> E("pow", << f, 2, 0, Digits(k - 1), k % 2 >>, << Power(v, k - 1, m) >>)]
Script == << E("set", << 0, m - 1, 0 >>, << >>) >> \o On(0) \o
          (IF m \in DOMAIN StaticIndex /\ StaticIndex[m] >= 0
           THEN << E("static", << 3, m - 1, StaticIndex[m] >>, << m - 1 >>) >> \o On(3) ELSE << >>)
\* a zero value never enters the loop: the gcd is m and the coefficient 0
Euclid == /\ t # 0 /\ LET u == s \div t IN s' = t /\ t' = s - t * u /\ m0' = m1 /\ m1' = m0 - m1 * u
          /\ UNCHANGED << m, v, n, e, base, acc >>
Coefficient == IF m0 < 0 THEN m0 + m \div s ELSE m0
StartPower == /\ t = 0 /\ n = -1 /\ n' \in 0 .. MaxE /\ e' = n' /\ base' = v /\ acc' = 1 % m
              /\ UNCHANGED << m, v, s, t, m0, m1 >>
Square == /\ n # -1 /\ e > 0
          /\ acc' = (IF e % 2 = 1 THEN (acc * base) % m ELSE acc) /\ base' = (base * base) % m /\ e' = e \div 2
          /\ UNCHANGED << m, v, s, t, m0, m1, n >>
Report == t = 0 /\ n = -1 /\ Emit([k |-> 0], Script) /\ UNCHANGED vars
Next == Euclid \/ StartPower \/ Square \/ Report
Spec == Init /\ [][Next]_vars

Abs(x) == IF x < 0 THEN -x ELSE x
\* the loop's contract, and what it gives
Contract == /\ (s - m0 * v) % m = 0 /\ (t - m1 * v) % m = 0
            /\ s * Abs(m1) + t * Abs(m0) <= m
Result == t = 0 => /\ s = GcdN(m, v) /\ (s = 1) = Unit(m - 1, v)
                   /\ ((0 <= Coefficient /\ Coefficient < m \div s) \/ v = 0)
                   /\ s = 1 => Coefficient % m \in Inverses
PowerLoop == n # -1 => (acc * Power(base, e, m)) % m = Power(v, n, m)
Operators == PowM(m - 1, v, Digits(IF n < 0 THEN 0 ELSE n)) = Power(v, IF n < 0 THEN 0 ELSE n, m)
===================================================================================
