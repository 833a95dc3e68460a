---------------------------------- MODULE Reader ----------------------------------
(* Reading tokens from a text.  A text is a sequence of Unicode code points; its  *)
(* tokens are the maximal runs of code points that are not white space.  The only *)
(* state is how many tokens have been consumed.                                   *)
EXTENDS Decimal, SequencesExt
\* the code points with the Unicode property White_Space
White == (9 .. 13) \cup {32, 133, 160, 5760} \cup (8192 .. 8202) \cup {8232, 8233, 8239, 8287, 12288}
InToken(t, i) == i >= 1 /\ i <= Len(t) /\ t[i] \notin White
\* first and last positions of the maximal runs, in order
Positions(t, Sel(_)) == SelectSeq([i \in 1 .. Len(t) |-> i], Sel)
Starts(t) == Positions(t, LAMBDA i : InToken(t, i) /\ ~InToken(t, i - 1))
Ends(t)   == Positions(t, LAMBDA i : InToken(t, i) /\ ~InToken(t, i + 1))
Tokens(t) == LET b == Starts(t)  e == Ends(t) IN [k \in DOMAIN b |-> SubSeq(t, b[k], e[k])]
\* types: 0-11 the primitive integers, 12 a string, 13 a character, 14 a boolean
Str == 12
Chr == 13
Flg == 14
True == << 116, 114, 117, 101 >>
False == << 102, 97, 108, 115, 101 >>
HasValue(ty, t) == CASE ty <= 11 -> IsNumber(t) /\ (t[1] = 45 => Signed(ty)) /\ Fits(ty, NumberOf(t))
                     [] ty = Str -> TRUE
                     [] ty = Chr -> Len(t) = 1
                     [] ty = Flg -> t = True \/ t = False
ValueOf(ty, t) == CASE ty <= 11 -> NumberOf(t)
                    [] ty = Str -> t
                    [] ty = Chr -> t[1]
                    [] ty = Flg -> IF t = True THEN 1 ELSE 0
\* the UTF-8 bytes of a code point
Utf8(c) == IF c < 128 THEN << c >>
           ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
           ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
           ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
BytesOf(t) == FlattenSeq([i \in DOMAIN t |-> Utf8(t[i])])
\* what a call returns on the tokens toks when k of them have been consumed
CanRead(toks, k, ty) == k < Len(toks) /\ HasValue(ty, toks[k + 1])
CanReadAll(toks, k, ty, n) == k + n <= Len(toks) /\ \A j \in 1 .. n : HasValue(ty, toks[k + j])
Named == [i32 |-> 2, i64 |-> 3, usize |-> 11]
===================================================================================
