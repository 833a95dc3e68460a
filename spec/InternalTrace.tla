------------------------------- MODULE InternalTrace -------------------------------
EXTENDS TraceLib, Internal
VARIABLE idle
TraceNext ==
  /\ UNCHANGED idle
  /\ \/ Call("is_prime") /\ R = Bool(Prime(A(1)))
     \/ Call("primitive_root") /\ Prime(A(1)) /\ Len(R) = 1 /\ IsPrimitiveRoot(A(1), R[1])
     \/ Call("inv_gcd") /\ Len(R) = 2 /\ IsInvGcd(A(1), A(2), R[1], R[2])
     \* x, exponent (digits), m - 1
     \/ Call("pow_mod") /\ R = << PowM(A(3), Residue(A(3), A(1)), A(2)) >>
     \* x, m
     \/ Call("safe_mod") /\ R = << MkInt(0, ModI(A(1), A(2))) >>
     \* m - 1, a, b
     \/ Call("barrett") /\ R = << A(1), MulM(A(1), A(2), A(3)) >>
     \/ Finished
TraceSpec == TraceStart /\ idle = 0 /\ [][TraceNext]_<< ep, l, idle >>
====================================================================================
