---------------------------------- MODULE Decimal ----------------------------------
(* Decimal numbers written as sequences of code points: an optional sign, digits.  *)
EXTENDS BigInt
\* the decimal number of a token
Digits == 48 .. 57
RECURSIVE DecFrom(_, _, _)
DecFrom(t, i, acc) == IF i > Len(t) THEN acc
                      ELSE DecFrom(t, i + 1, AddN(MulN(acc, << 10 >>), IF t[i] = 48 THEN << >> ELSE << t[i] - 48 >>))
Unsigned(t) == Len(t) > 0 /\ \A i \in DOMAIN t : t[i] \in Digits
Body(t) == IF t[1] \in {43, 45} THEN SubSeq(t, 2, Len(t)) ELSE t
IsNumber(t) == Len(t) > 0 /\ Unsigned(Body(t))
NumberOf(t) == MkInt(IF t[1] = 45 THEN 1 ELSE 0, DecFrom(Body(t), 1, << >>))
====================================================================================
