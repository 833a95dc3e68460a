--------------------------------- MODULE ReaderAlg ---------------------------------
(* The iterator behind the reader: the rest of the text is cut at its next white   *)
(* space, and empty pieces are skipped.  Every text up to MaxLen over Symbols and   *)
(* every sequence of reads of each kind: each read yields the next maximal run of   *)
(* the text, and the reader is exhausted exactly when none is left.                 *)
EXTENDS GenLib, Reader
CONSTANTS Symbols, MaxLen
VARIABLES text, rest, finished, piece, have, used, want, hist, over
vars == << text, rest, finished, piece, have, used, want, hist, over >>
\* rest: what has not been cut off; finished: the last piece has been cut off
Kinds == << << "checked_read", << Str >> >>, << "chars", << >> >>, << "bytes", << >> >>, << "i64", << >> >>,
            << "vec", << Str, 2 >> >>, << "read", << Chr >> >> >>
Init == /\ \E n \in 0 .. MaxLen : text \in [1 .. n -> Symbols]
        /\ rest = text /\ finished = FALSE /\ piece = << >> /\ have = << >> /\ used = 0
        /\ want = << >> /\ hist = << >> /\ over = FALSE
Idle == want = << >>
\* the caller asks for tokens
Ask == /\ Idle /\ ~over
       /\ \E k \in DOMAIN Kinds : want' = << Kinds[k][1], Kinds[k][2], IF Kinds[k][1] = "vec" THEN 2 ELSE 1 >>
       /\ have' = << >> /\ UNCHANGED << text, rest, finished, piece, used, hist, over >>
Needs == ~Idle /\ Len(have) < want[3]
RECURSIVE CutAt(_, _)
CutAt(t, i) == IF i > Len(t) \/ t[i] \in White THEN i ELSE CutAt(t, i + 1)
\* one turn of the splitting iterator
Cut == /\ Needs /\ ~finished
       /\ LET i == CutAt(rest, 1)
              p == SubSeq(rest, 1, i - 1) IN
          /\ IF i > Len(rest) THEN finished' = TRUE /\ rest' = << >>
             ELSE finished' = FALSE /\ rest' = SubSeq(rest, i + 1, Len(rest))
          /\ have' = (IF p = << >> THEN have ELSE Append(have, p))
          /\ used' = (IF p = << >> THEN used ELSE used + 1)
       /\ UNCHANGED << text, piece, want, hist, over >>
Value(t) == CASE want[1] = "checked_read" -> t
              [] want[1] = "chars" -> t
              [] want[1] = "bytes" -> BytesOf(t)
              [] want[1] = "i64" -> NumberOf(t)
              [] want[1] = "vec" -> t
              [] want[1] = "read" -> t[1]
Ty == CASE want[1] = "i64" -> 3 [] want[1] = "read" -> Chr [] OTHER -> Str
\* the call returns, or panics
Answer == /\ ~Idle /\ ~Needs
          /\ IF \A j \in DOMAIN have : HasValue(Ty, have[j])
             THEN /\ hist' = Append(hist, E(want[1], want[2],
                       IF want[1] = "vec" THEN << [j \in DOMAIN have |-> Value(have[j])] >> ELSE << Value(have[1]) >>))
                  /\ UNCHANGED over
             ELSE hist' = Append(hist, Refuses(want[1], want[2])) /\ over' = TRUE
          /\ want' = << >> /\ UNCHANGED << text, rest, finished, piece, have, used >>
Out == /\ Needs /\ finished
       /\ hist' = Append(hist, IF want[1] = "checked_read" THEN E(want[1], want[2], << >>) ELSE Refuses(want[1], want[2]))
       /\ over' = TRUE /\ want' = << >> /\ UNCHANGED << text, rest, finished, piece, have, used >>
\* when it ran out, it stays so
After == << E("checked_read", << Str >>, << >>), E("checked_read", << 3 >>, << >>), Refuses("read", << Str >>) >>
Report == /\ over /\ Emit([text |-> text], hist \o (IF finished /\ used = Len(Tokens(text)) /\ have = << >> THEN After ELSE << >>))
          /\ UNCHANGED vars
Next == Ask \/ Cut \/ Answer \/ Out \/ Report
Spec == Init /\ [][Next]_vars
\* what was cut off so far are the first tokens of the text, and what remains holds the others
Whole == LET toks == Tokens(text) IN
  /\ used <= Len(toks)
  /\ Tokens(rest) = SubSeq(toks, used + 1, Len(toks))
  /\ have # << >> => \A j \in DOMAIN have : have[j] = toks[used - Len(have) + j]
  /\ (Needs /\ finished) => used = Len(toks)
===================================================================================
