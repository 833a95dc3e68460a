--------------------------------- MODULE LogsTrace ---------------------------------
EXTENDS TraceLib, Logs
VARIABLE idle
TraceNext ==
  /\ UNCHANGED idle
  /\ \/ Call("lg") /\ Len(R) = 1 /\ A(1) # << >> /\ IsFloorLog(A(1), R[1])
     \/ Call("ceil_lg") /\ Len(R) = 1 /\ IsCeilLog(A(1), R[1])
     \/ Finished
TraceSpec == TraceStart /\ idle = 0 /\ [][TraceNext]_<< ep, l, idle >>
====================================================================================
