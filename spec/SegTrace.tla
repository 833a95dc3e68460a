--------------------------------- MODULE SegTrace ---------------------------------
(* Histories of the plain and the lazy segment tree.                             *)
EXTENDS TraceLib, SegArray
VARIABLE made       \* 0 none, 1 plain, 2 lazy
TraceInit == TraceStart /\ fam = 0 /\ a = << >> /\ made = 0
Keep == UNCHANGED made
Still == UNCHANGED << fam, a, made >>
BadRange(x, y) == Above(x, y) \/ Beyond(y, n + 1)
Only(op) == Call(op) /\ Keep
TraceNext ==
  \/ Call("new") /\ Created(A(2), A(3)) /\ made' = A(1) + 1
  \/ Call("default") /\ Created(A(2), 0) /\ made' = A(1) + 1
  \/ Call("from") /\ From(A(2), A(3)) /\ made' = A(1) + 1
  \/ Only("set") /\ Set(A(1), A(2))
  \/ Only("apply") /\ made = 2 /\ Apply(A(1), A(2))
  \/ Only("range") /\ made = 2 /\ Range_(A(1), A(2), A(3))
  \/ Only("get") /\ GetIs(A(1), R)
  \/ Only("prod") /\ ProdIs(A(1), A(2), R)
  \/ Only("all") /\ ProdIs(0, n, R)
  \/ Only("right") /\ Len(R) = 1 /\ RightIs(A(1), A(2), A(3), R[1])
  \/ Only("left") /\ Len(R) = 1 /\ LeftIs(A(1), A(2), A(3), R[1])
  \* out-of-contract requests are refused and change nothing
  \/ Refused("set") /\ Beyond(A(1), n) /\ Still
  \/ Refused("get") /\ Beyond(A(1), n) /\ Still
  \/ Refused("apply") /\ Beyond(A(1), n) /\ Still
  \/ Refused("prod") /\ BadRange(A(1), A(2)) /\ Still
  \/ Refused("range") /\ BadRange(A(1), A(2)) /\ Still
  \/ Refused("right") /\ Beyond(A(1), n + 1) /\ Still
  \/ Refused("left") /\ Beyond(A(1), n + 1) /\ Still
  \/ Refused("right_false") /\ Still
  \/ Refused("left_false") /\ Still
  \/ Finished /\ Still
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l, avars, made >>
=================================================================================
