----------------------------- MODULE FactorialsTrace -----------------------------
EXTENDS TraceLib, Factorials
TraceInit == TraceStart /\ mm = 0 /\ n = -1 /\ fac = << >>
Still == UNCHANGED fvars
TraceNext ==
  \/ Call("new") /\ Made(A(2), A(3)) /\ R = << A(2) >>
  \/ Call("choose") /\ Valid(A(1), A(2)) /\ Len(R) = 1 /\ IsChoose(A(1), A(2), R[1]) /\ Still
  \/ Call("perm") /\ Valid(A(1), A(2)) /\ Len(R) = 1 /\ IsPerm(A(1), A(2), R[1]) /\ Still
  \* k > m, or m beyond the table, is refused and changes nothing
  \/ (Refused("choose") \/ Refused("perm")) /\ n >= 0 /\ (Above(A(2), A(1)) \/ Beyond(A(1), n + 1)) /\ Still
  \/ Finished /\ Still
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l, fvars >>
==================================================================================
