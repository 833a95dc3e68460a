-------------------------------- MODULE TraceLib --------------------------------
(* Common part of the trace specifications.                                      *)
(*                                                                               *)
(* A trace file holds one episode per line: m (parameters) and ev, the public    *)
(* calls of one history in order.  Each event carries the call's name, its       *)
(* arguments, its result and how it ended ("ok", "panic", "hang", "crash").      *)
(* Every episode is one initial state; each following state consumes one event   *)
(* through a specification action that the event's arguments AND result must     *)
(* satisfy.  An event no action explains leaves a state without successor, which *)
(* TLC reports as a deadlock naming the episode (ep) and the event (l): that is  *)
(* the rejection of the trace.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Episodes == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ep, l

TraceStart == ep \in DOMAIN Episodes /\ l = 1

Meta == Episodes[ep].m
Evs  == Episodes[ep].ev
Ev   == Evs[l]
A(i) == Ev.a[i]          \* i-th argument
R    == Ev.r             \* result, always a sequence
\* x is no index below k; negative numbers stand for those near the top of the machine word
Beyond(x, k) == x < 0 \/ x >= k
\* x > y as machine words
Above(x, y) == IF x < 0 THEN y >= 0 \/ x > y ELSE y >= 0 /\ x > y
Bool(b) == IF b THEN << 1 >> ELSE << 0 >>

Advance == l' = l + 1 /\ ep' = ep
\* The next event is a call to op that returned normally / that panicked.
Call(op)    == l <= Len(Evs) /\ Ev.op = op /\ Ev.st = "ok" /\ Advance
Refused(op) == l <= Len(Evs) /\ Ev.op = op /\ Ev.st = "panic" /\ Advance
\* The whole episode was explained.
\* what to show of the states of a rejected trace
Where == [ep |-> ep, l |-> l]
Finished == l > Len(Evs) /\ UNCHANGED << ep, l >>
=================================================================================
