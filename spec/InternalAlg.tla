-------------------------------- MODULE InternalAlg --------------------------------
(* The Miller-Rabin test with bases 2, 7, 61 and the gcd-inverse loop with its       *)
(* contract, step by step: every odd n below MaxN is classified as trial division    *)
(* classifies it, and for every a, b up to MaxB the loop keeps                        *)
(*   s - m0 a = 0, t - m1 a = 0 (mod b),  s |m1| + t |m0| <= b                        *)
(* and ends in the required pair.  Powers and generators modulo small numbers are     *)
(* computed from the definition.                                                      *)
EXTENDS GenLib, Internal, FiniteSets
CONSTANTS MaxN, MaxB, MaxM, MaxE
VARIABLES kind, n, base, t, y, pc,      \* primality of n; or the modulus b and the argument a
          s, u, m0, m1                  \* the gcd loop
vars == << kind, n, base, t, y, pc, s, u, m0, m1 >>
Bases == << 2, 7, 61 >>
Zeros == base = 0 /\ t = 0 /\ y = 0
Init == \/ kind = "prime" /\ n \in 0 .. MaxN /\ base = 0 /\ t = 0 /\ y = 0 /\ pc = "screen" /\ s = 0 /\ u = 0 /\ m0 = 0 /\ m1 = 0
        \/ /\ kind = "gcd" /\ n \in 1 .. MaxB /\ t \in 0 - MaxB .. MaxB /\ base = 0 /\ y = t % n /\ pc = "loop"
           /\ s = n /\ u = t % n /\ m0 = 0 /\ m1 = 1
        \/ kind = "power" /\ n \in 1 .. MaxM /\ base = 0 /\ t \in 0 - MaxM .. MaxM /\ y = 0 /\ pc = "done" /\ s = 0 /\ u = 0 /\ m0 = 0 /\ m1 = 0
UL == UNCHANGED << s, u, m0, m1 >>
Verdict(b) == pc' = (IF b THEN "prime" ELSE "composite") /\ UNCHANGED << kind, n, base, t, y >> /\ UL
RECURSIVE Odd(_)
Odd(d) == IF d % 2 = 0 THEN Odd(d \div 2) ELSE d
RECURSIVE Pow(_, _, _)
Pow(x, k, m) == IF k = 0 THEN 1 % m ELSE LET h == Pow(x, k \div 2, m)
                                             sq == (h * h) % m IN IF k % 2 = 1 THEN (sq * (x % m)) % m ELSE sq
Screen == /\ pc = "screen"
          /\ IF n <= 1 THEN Verdict(FALSE)
             ELSE IF n \in {2, 7, 61} THEN Verdict(TRUE)
             ELSE IF n % 2 = 0 THEN Verdict(FALSE)
             ELSE /\ base' = 1 /\ t' = Odd(n - 1) /\ y' = Pow(2, Odd(n - 1), n) /\ pc' = "square" /\ UNCHANGED << kind, n >> /\ UL
Square == /\ pc = "square" /\ t # n - 1 /\ y # 1 /\ y # n - 1
          /\ y' = (y * y) % n /\ t' = t * 2 /\ UNCHANGED << kind, n, base, pc >> /\ UL
Decide == /\ pc = "square" /\ (t = n - 1 \/ y = 1 \/ y = n - 1)
          /\ IF y # n - 1 /\ t % 2 = 0 THEN Verdict(FALSE)
             ELSE IF base = 3 THEN Verdict(TRUE)
             ELSE /\ base' = base + 1 /\ t' = Odd(n - 1) /\ y' = Pow(Bases[base + 1], Odd(n - 1), n)
                  /\ UNCHANGED << kind, n, pc >> /\ UL
\* the gcd loop on b = n, a = y (0 <= y < n); a multiple of b is answered at once
Loop == /\ pc = "loop" /\ y # 0 /\ u # 0
        /\ LET d == s \div u IN s' = u /\ u' = s - (u * d) /\ m0' = m1 /\ m1' = m0 - (m1 * d)
        /\ UNCHANGED << kind, n, base, t, y, pc >>
Close == /\ pc = "loop" /\ (y = 0 \/ u = 0) /\ pc' = "done"
         /\ m0' = (IF y = 0 THEN 0 ELSE IF m0 < 0 THEN m0 + (n \div s) ELSE m0)
         /\ s' = (IF y = 0 THEN n ELSE s) /\ UNCHANGED << kind, n, base, t, y, u, m1 >>
RECURSIVE Powers(_)
Powers(e) == IF e < 0 THEN << >> ELSE
  Append(Powers(e - 1), E("pow_mod", << ToI(t), OfInt(e), n - 1 >>, << Pow(t % n, e, n) >>))
Generators(p) == {g \in 1 .. p - 1 : Cardinality({Pow(g, k, p) : k \in 1 .. p - 1}) = p - 1}
Least(S) == CHOOSE x \in S : \A z \in S : x <= z
Script == CASE pc = "prime" -> << E("is_prime", << n >>, << 1 >>) >> \o
                               (IF n <= MaxM THEN << E("primitive_root", << n >>, << Least(Generators(n)) >>) >> ELSE << >>)
            [] pc = "composite" -> << E("is_prime", << n >>, << 0 >>) >>
            [] pc = "done" /\ kind = "gcd" -> << E("inv_gcd", << ToI(t), OfInt(n) >>, << ToI(s), ToI(m0) >>),
                                                 E("safe_mod", << ToI(t), OfInt(n) >>, << ToI(t % n) >>) >>
            [] OTHER -> Powers(MaxE) \o (IF t < 0 \/ t >= n THEN << >> ELSE
                 [k \in 1 .. n |-> E("barrett", << n - 1, t, k - 1 >>, << n - 1, (t * (k - 1)) % n >>)])
Report == pc \in {"prime", "composite", "done"} /\ Emit([k |-> 0], Script) /\ UNCHANGED vars
Next == Screen \/ Square \/ Decide \/ Loop \/ Close \/ Report
Spec == Init /\ [][Next]_vars
Right == /\ pc = "prime" => Prime(n)
         /\ pc = "composite" => ~Prime(n)
Mag(v) == IF v < 0 THEN -v ELSE v
Contract == pc = "loop" => /\ (s - (m0 * y)) % n = 0 /\ (u - (m1 * y)) % n = 0
                           /\ (s * Mag(m1)) + (u * Mag(m0)) <= n
Pair == pc = "done" /\ kind = "gcd" => IsInvGcd(ToI(t), OfInt(n), ToI(s), ToI(m0))
Roots == pc = "prime" /\ n <= MaxM => IsPrimitiveRoot(n, Least(Generators(n)))
===================================================================================
