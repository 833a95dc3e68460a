------------------------------- MODULE PatternsTrace -------------------------------
EXTENDS TraceLib, Patterns
TraceInit == TraceStart /\ n = 0 /\ pats = << >> /\ built = FALSE
Still == built /\ UNCHANGED pvars
TraceNext ==
  \/ Call("from") /\ From(A(2))
  \/ Call("new") /\ Fresh(A(2))
  \/ Call("insert") /\ Insert(A(1), A(2))
  \/ Call("build") /\ Build
  \* (bound, so that TLC computes them once per question)
  \/ Call("find") /\ Still /\ \E W \in {Words} : \E P \in {PrefixesTo(Len(A(1)))} : \E top \in {Longest} :
                                 (R = SingleIn(W, P, top, A(1))) = TRUE
  \/ Call("all") /\ Still /\ \E W \in {Words} : \E lens \in {Lengths} : (R = AllIn(W, lens, A(1))) = TRUE
  \/ Call("cnt") /\ Still /\ \E W \in {Words} : \E lens \in {Lengths} : \E m \in {AllIn(W, lens, A(1))} :
                                (R = CountsIn(m)) = TRUE
  \* the empty pattern is refused and changes nothing
  \/ Refused("insert") /\ A(1) = << >> /\ UNCHANGED pvars
  \/ Refused("from") /\ (\E i \in DOMAIN A(2) : A(2)[i] = << >>) /\ UNCHANGED pvars
  \/ Finished /\ UNCHANGED pvars
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l, pvars >>
====================================================================================
