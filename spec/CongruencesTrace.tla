----------------------------- MODULE CongruencesTrace -----------------------------
EXTENDS TraceLib, Congruences
VARIABLE idle
WellFormed(sys) == \A i \in DOMAIN sys : IsInt(sys[i][1]) /\ IsInt(sys[i][2]) /\ IsNat(sys[i][3]) /\ sys[i][3] # << >>
TraceNext ==
  \/ Call("ex_crt") /\ WellFormed(A(1)) /\ IsAnswer(A(1), R) /\ UNCHANGED idle
  \/ Finished /\ UNCHANGED idle
TraceSpec == TraceStart /\ idle = 0 /\ [][TraceNext]_<< ep, l, idle >>
===================================================================================
