------------------------------- MODULE DivisorsTrace -------------------------------
EXTENDS TraceLib, Divisors
VARIABLE idle
\* arguments: type, a, b and the certificate of their gcd
In == Fits(A(1), A(2)) /\ Fits(A(1), A(3)) /\ Cert(A(2), A(3), A(4))
BothZero == A(2)[2] = << >> /\ A(3)[2] = << >>
Same == UNCHANGED idle
TraceNext ==
  \/ Call("gcd") /\ In /\ IsGcd(A(2), A(3), A(4), R[1]) /\ Same
  \/ Call("lcm") /\ In /\ ~BothZero /\ LcmFits(A(1), A(4)) /\ IsLcm(A(2), A(3), A(4), R[1]) /\ Same
  \/ Call("ex_gcd") /\ In /\ Signed(A(1)) /\ IsBezout(A(2), A(3), A(4), R[1], R[2], R[3]) /\ Same
  \/ Finished /\ Same
TraceSpec == TraceStart /\ idle = 0 /\ [][TraceNext]_<< ep, l, idle >>
====================================================================================
