---------------------------------- MODULE EuclidAlg ----------------------------------
(* The Euclidean recursion on a signed type of W bits (division truncates, the   *)
(* boundary case MIN / -1 wraps): descend to (g, 0), then unwind the             *)
(* coefficients.  For EVERY pair of values of the type: the result is the gcd up *)
(* to sign, the identity holds at every level, and no intermediate value leaves  *)
(* the type.  Every pair is executed on the real 8-bit type (and on the wide     *)
(* ones) and judged by DivisorsTrace.                                            *)
EXTENDS GenLib, BigInt
CONSTANTS W, Wide
VARIABLES a0, b0, stack, x, y, g, pc
vars == << a0, b0, stack, x, y, g, pc >>
Lo == 0 - 2 ^ (W - 1)
Hi == 2 ^ (W - 1) - 1
InType(v) == Lo <= v /\ v <= Hi
Mag(v) == IF v < 0 THEN -v ELSE v
\* truncating division with wrapping at the boundary
Quot(p, q) == LET d == Mag(p) \div Mag(q) IN
              IF (p < 0) = (q < 0) THEN (IF d > Hi THEN Lo ELSE d) ELSE -d
Remn(p, q) == IF p < 0 THEN -(Mag(p) % Mag(q)) ELSE Mag(p) % Mag(q)
Top == stack[Len(stack)]
Init == /\ a0 \in Lo .. Hi /\ b0 \in Lo .. Hi /\ stack = << << a0, b0 >> >> /\ x = 0 /\ y = 0 /\ g = 0 /\ pc = "descend"
Descend == /\ pc = "descend" /\ Top[2] # 0 /\ stack' = Append(stack, << Top[2], Remn(Top[1], Top[2]) >>)
           /\ UNCHANGED << a0, b0, x, y, g, pc >>
Bottom == /\ pc = "descend" /\ Top[2] = 0 /\ pc' = "unwind" /\ x' = 1 /\ y' = 0 /\ g' = Top[1] /\ UNCHANGED << a0, b0, stack >>
Unwind == /\ pc = "unwind" /\ Len(stack) > 1
          /\ LET s == SubSeq(stack, 1, Len(stack) - 1)
                 t == s[Len(s)] IN
               stack' = s /\ x' = y /\ y' = x - Quot(t[1], t[2]) * y
          /\ UNCHANGED << a0, b0, g, pc >>
Done == pc = "unwind" /\ Len(stack) = 1
RECURSIVE Gcd(_, _)
Gcd(p, q) == IF q = 0 THEN p ELSE Gcd(q, p % q)
\* the certificate the trace specification asks for
Cofactor(p, q) == CHOOSE u \in 0 .. (IF q > 0 THEN q ELSE 1) : \E v \in 0 .. (IF p > 0 THEN p ELSE 1) : Mag(u * p - v * q) = 1
Witness == LET h == Gcd(Mag(a0), Mag(b0)) IN
  IF h = 0 THEN << << >>, << >>, << >>, << >>, << >> >>
  ELSE LET p == Mag(a0) \div h
           q == Mag(b0) \div h
           u == Cofactor(p, q)
           v == CHOOSE v \in 0 .. (IF p > 0 THEN p ELSE 1) : Mag(u * p - v * q) = 1 IN
       << OfInt(h), OfInt(p), OfInt(q), OfInt(u), OfInt(v) >>
Types == (IF W = 8 THEN << 0 >> ELSE << 0, 1, 2, 3, 4, 5 >>) \o (IF Wide /\ a0 >= 0 /\ b0 >= 0 THEN << 6, 7, 8, 9, 10, 11 >> ELSE << >>)
RECURSIVE On(_)
On(k) == IF k > Len(Types) THEN << >> ELSE
  LET t == Types[k]
      w == Witness
      args == << t, ToI(a0), ToI(b0), w >>
      lcm == MulN(MulN(w[2], w[3]), w[1]) IN
  << E("gcd", args, << >>) >> \o
  (IF (a0 # 0 \/ b0 # 0) /\ Fits(t, MkInt(0, lcm)) THEN << E("lcm", args, << >>) >> ELSE << >>) \o
  (IF Signed(t) THEN << E("ex_gcd", args, << >>) >> ELSE << >>) \o On(k + 1)
Report == Done /\ Emit([k |-> 0], On(1)) /\ UNCHANGED vars
Next == Descend \/ Bottom \/ Unwind \/ Report
Spec == Init /\ [][Next]_vars
\* the gcd never changes on the way down; the identity holds on the way up
Keeps == Gcd(Mag(Top[1]), Mag(Top[2])) = Gcd(Mag(a0), Mag(b0))
Identity == pc = "unwind" => Top[1] * x + Top[2] * y = g /\ Mag(g) = Gcd(Mag(a0), Mag(b0))
NoOverflow == /\ InType(x) /\ InType(y) /\ InType(g)
              /\ pc = "unwind" /\ Len(stack) > 1 =>
                   LET t == stack[Len(stack) - 1] IN InType(Quot(t[1], t[2]) * y)
              /\ \A k \in DOMAIN stack : InType(stack[k][1]) /\ InType(stack[k][2])
===================================================================================
