------------------------------------ MODULE Logs ------------------------------------
(* Integer logarithms of naturals of any size.                                      *)
EXTENDS BigInt
IsFloorLog(n, k) == k \in 0 .. 127 /\ ~LessN(n, PowN(k)) /\ LessN(n, PowN(k + 1))
IsCeilLog(n, k) == k \in 0 .. 127 /\ ~LessN(PowN(k), n) /\ (k = 0 \/ LessN(PowN(k - 1), n))
===================================================================================
