----------------------------------- MODULE LogAlg -----------------------------------
(* Counting leading zeros of a Bits-bit word: Bits - 1 - lz(i) is the floor          *)
(* logarithm, and Bits - lz(max(n, 1) - 1) the ceiling one, for EVERY word of Bits   *)
(* bits; and both at every word of the real sizes that is the sum or difference of    *)
(* two powers of two, give or take one.                                               *)
EXTENDS GenLib, Logs
CONSTANTS Bits
VARIABLES word, lz, pc, p, q
vars == << word, lz, pc, p, q >>
\* shift left until the top bit is set
Init == \/ word \in 0 .. 2 ^ Bits - 1 /\ lz = 0 /\ pc = "floor" /\ p = word /\ q = 0
        \/ word = 0 /\ lz = 0 /\ pc = "pairs" /\ p \in 0 .. 63 /\ q \in 0 .. p
Shift == /\ pc \in {"floor", "ceil"} /\ lz < Bits /\ word < 2 ^ (Bits - 1)
         /\ word' = word * 2 /\ lz' = lz + 1 /\ UNCHANGED << pc, p, q >>
Counted == lz = Bits \/ word >= 2 ^ (Bits - 1)
Turn == /\ pc = "floor" /\ Counted /\ pc' = "ceil" /\ word' = (IF p = 0 THEN 0 ELSE p - 1) /\ lz' = 0 /\ UNCHANGED << p, q >>
FloorLog(n) == CHOOSE k \in 0 .. 64 : IsFloorLog(n, k)
CeilLog(n) == CHOOSE k \in 0 .. 64 : IsCeilLog(n, k)
Tests(n) == (IF n # << >> /\ LessN(n, PowN(64)) THEN << E("lg", << n >>, << FloorLog(n) >>) >> ELSE << >>) \o
            (IF LessN(n, PowN(32)) THEN << E("ceil_lg", << n >>, << CeilLog(n) >>) >> ELSE << >>)
Around(n) == Tests(SubN(n, OneN)) \o Tests(n) \o Tests(AddN(n, OneN))
Report == \/ /\ pc = "ceil" /\ Counted /\ Emit([k |-> 0], Tests(OfInt(p))) /\ UNCHANGED vars
          \/ /\ pc = "pairs" /\ UNCHANGED vars
             /\ Emit([k |-> 0], Around(AddN(PowN(p), PowN(q))) \o Around(IF p = q THEN PowN(p) ELSE SubN(PowN(p), PowN(q))))
Next == Shift \/ Turn \/ Report
Spec == Init /\ [][Next]_vars
Floor == pc = "floor" /\ Counted /\ p > 0 => IsFloorLog(OfInt(p), Bits - 1 - lz)
Ceiling == pc = "ceil" /\ Counted => IsCeilLog(OfInt(p), Bits - lz)
===================================================================================
