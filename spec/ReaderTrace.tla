-------------------------------- MODULE ReaderTrace --------------------------------
EXTENDS TraceLib, Reader
VARIABLES toks,   \* tokens of the text
          used,   \* how many have been consumed
          lost    \* a read met a token without a value, or too few: nothing more is promised
Spec0 == TraceStart /\ toks = Tokens(Meta.text) /\ used = 0 /\ lost = FALSE
Take(n) == used' = used + n /\ UNCHANGED << toks, lost >>
Lose == lost' = TRUE /\ UNCHANGED << toks, used >>
Stay == UNCHANGED << toks, used, lost >>
Exhausted == used = Len(toks)
Tok == toks[used + 1]
TraceNext ==
  \/ /\ lost /\ l <= Len(Evs) /\ Ev.st \in {"ok", "panic"} /\ Advance /\ Stay
  \/ /\ ~lost
     /\ \/ Call("read") /\ CanRead(toks, used, A(1)) /\ R = << ValueOf(A(1), Tok) >> /\ Take(1)
        \/ Refused("read") /\ Exhausted /\ Stay
        \/ Refused("read") /\ ~Exhausted /\ ~CanRead(toks, used, A(1)) /\ Lose
        \/ Call("checked_read") /\ CanRead(toks, used, A(1)) /\ R = << ValueOf(A(1), Tok) >> /\ Take(1)
        \/ Call("checked_read") /\ Exhausted /\ R = << >> /\ Stay
        \/ Refused("checked_read") /\ ~Exhausted /\ ~CanRead(toks, used, A(1)) /\ Lose
        \/ \E op \in DOMAIN Named :
             \/ Call(op) /\ CanRead(toks, used, Named[op]) /\ R = << ValueOf(Named[op], Tok) >> /\ Take(1)
             \/ Refused(op) /\ Exhausted /\ Stay
             \/ Refused(op) /\ ~Exhausted /\ ~CanRead(toks, used, Named[op]) /\ Lose
        \/ Call("bytes") /\ ~Exhausted /\ R = << BytesOf(Tok) >> /\ Take(1)
        \/ Call("chars") /\ ~Exhausted /\ R = << Tok >> /\ Take(1)
        \/ (Refused("bytes") \/ Refused("chars")) /\ Exhausted /\ Stay
        \/ /\ Call("vec") /\ CanReadAll(toks, used, A(1), A(2)) /\ Take(A(2))
           /\ R = << [j \in 1 .. A(2) |-> ValueOf(A(1), toks[used + j])] >>
        \/ Refused("vec") /\ ~CanReadAll(toks, used, A(1), A(2)) /\ Lose
  \/ Finished /\ Stay
TraceSpec == Spec0 /\ [][TraceNext]_<< ep, l, toks, used, lost >>
====================================================================================
