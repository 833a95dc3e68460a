------------------------------- MODULE RecursionTrace -------------------------------
EXTENDS TraceLib, Recursion
VARIABLES mach, at, count
vars == << ep, l, mach, at, count >>
None == [stack |-> << >>, t |-> 0, mode |-> "none", val |-> 0]
\* a call is consumed one report at a time: arguments: args, tape; result: reports, value
Here == l <= Len(Evs) /\ Ev.op = "call" /\ Ev.st = "ok" /\ Len(R) = 2
Begin == Here /\ mach.mode = "none" /\ mach' = Start(A(1)) /\ at' = 1 /\ UNCHANGED << ep, l, count >>
Step == /\ Here /\ mach.mode # "none" /\ ~Ended(mach)
        /\ at <= Len(R[1]) /\ mach.t <= Len(A(2)) + 1
        /\ R[1][at] = Reported(mach, A(2), count)
        /\ mach.mode = "leave" \/ mach.t <= Len(A(2))
        /\ mach' = After(mach, A(2)) /\ at' = at + 1 /\ count' = count + 1 /\ UNCHANGED << ep, l >>
Return == /\ Here /\ mach.mode = "resume" /\ Ended(mach) /\ at = Len(R[1]) + 1 /\ R[2] = << mach.val >>
          /\ Advance /\ mach' = None /\ UNCHANGED << at, count >>
TraceNext ==
  \/ Begin \/ Step \/ Return
  \/ Call("new") /\ mach' = None /\ at' = 0 /\ count' = 0
  \* a plain recursion n + f(n - 1) to the given depth
  \/ Call("deep") /\ R = << (A(2) * (A(2) + 1)) \div 2 >> /\ UNCHANGED << mach, at, count >>
  \/ Finished /\ UNCHANGED << mach, at, count >>
TraceSpec == TraceStart /\ mach = None /\ at = 0 /\ count = 0 /\ [][TraceNext]_vars
===================================================================================
