-------------------------------- MODULE BarrettAlg --------------------------------
(* Modular addition, subtraction and multiplication on machine words, with a     *)
(* half word of H bits standing for 32 and a word of 2H bits for 64: sums and    *)
(* differences wrap in a half word, products are reduced by the precomputed      *)
(* reciprocal im = ceil(2^2H / m) and at most one correction.  For EVERY modulus *)
(* up to 2^(H-1) (the library's limit is 2^31) and every pair of residues the    *)
(* results are exact.  Every triple is replayed on the library's dynamic (and,   *)
(* where instantiated, static) integers in every operator form.                  *)
EXTENDS GenLib, Modular
CONSTANTS H, Static
VARIABLES m, a, b, pc, x, v
vars == << m, a, b, pc, x, v >>
Half == 2 ^ H
Word == 2 ^ (2 * H)
im == ((Word - 1) \div m + 1) % Word
WrapHalf(y) == y % Half
\* addition, subtraction as written: compare after wrapping
AddWord == LET s == a + b IN IF s >= m THEN s - m ELSE s
SubWord == LET d == WrapHalf(a - b) IN IF d >= m THEN WrapHalf(d + m) ELSE d
\* the moduli of small compile-time families: modulus -> number in the driver
StaticIndex == << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, -1, -1, 13 >>
HasStatic(k) == k \in DOMAIN StaticIndex /\ StaticIndex[k] >= 0
Init == /\ m \in 1 .. 2 ^ (H - 1) /\ a \in 0 .. m - 1 /\ b \in 0 .. m - 1
        /\ pc = "estimate" /\ x = 0 /\ v = 0
Estimate == pc = "estimate" /\ x' = (a * b * im) \div Word /\ pc' = "subtract" /\ UNCHANGED << m, a, b, v >>
Subtract == /\ pc = "subtract" /\ v' = ((a * b - ((x * m) % Word)) % Word) % Half /\ pc' = "correct"
            /\ UNCHANGED << m, a, b, x >>
\* operator forms: value and reference operands, assignment with either
Ops(f) == [k \in 1 .. 6 |-> E("mul", << f, 2, 0, 1, k - 1 >>, << MulM(m - 1, a, b) >>)]
       \o [k \in 1 .. 6 |-> E("add", << f, 2, 0, 1, k - 1 >>, << AddM(m - 1, a, b) >>)]
       \o [k \in 1 .. 6 |-> E("sub", << f, 2, 0, 1, k - 1 >>, << SubM(m - 1, a, b) >>)]
       \o << E("neg", << f, 2, 0, a % 2 >>, << NegM(m - 1, a) >>),
             E("sum", << f, 2, << 0, 1, 0 >>, b % 2 >>, << (2 * a + b) % m >>),
             E("prod", << f, 2, << 0, 1, 0 >>, b % 2 >>, << (((a * b) % m) * a) % m >>),
             E("eq", << f, 0, 1 >>, IF a = b THEN << 1, 1, 1, 1 >> ELSE << 0, 0, 0, 0 >>),
             E("show", << f, 2 >>, << (((a * b) % m) * a) % m, 1 >>) >>
Args(f) == << E("raw", << f, 0, a, b % 2 >>, << a >>), E("raw", << f, 1, b, a % 2 >>, << b >>) >> \o Ops(f)
Script == (<< E("set", << 0, m - 1, 0 >>, << >>) >> \o Args(0)) \o
          (IF Static /\ HasStatic(m) THEN << E("static", << 3, m - 1, StaticIndex[m] >>, << m - 1 >>) >> \o Args(3) ELSE << >>)
Correct == /\ pc = "correct" /\ v' = (IF m <= v THEN WrapHalf(v + m) ELSE v) /\ pc' = "done"
           /\ UNCHANGED << m, a, b, x >> /\ Emit([k |-> 0], Script)
Next == Estimate \/ Subtract \/ Correct
Spec == Init /\ [][Next]_vars
\* the reciprocal is the ceiling; the estimate is the quotient or one more; nothing overflows a double word
Reciprocal == m >= 2 => im * m >= Word /\ im * m < Word + m
Quotient == pc # "estimate" /\ m >= 2 => x - (a * b) \div m \in {0, 1}
Exact == /\ pc = "done" => v = (a * b) % m
         /\ AddWord = (a + b) % m /\ SubWord = (a - b) % m
\* the operators the trace specification computes with agree with integer arithmetic
Operators == /\ MulM(m - 1, a, b) = (a * b) % m /\ AddM(m - 1, a, b) = (a + b) % m
             /\ SubM(m - 1, a, b) = (a - b) % m /\ NegM(m - 1, a) = (0 - a) % m
===================================================================================
