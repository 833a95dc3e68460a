---------------------------------- MODULE KmpAlg ----------------------------------
(* The prefix function, built symbol by symbol: the word s grows by one symbol,  *)
(* j follows borders of borders until one can be extended.  Every word over the  *)
(* alphabet up to length MaxLen is reached.                                      *)
EXTENDS GenLib, Strings
CONSTANTS Symbols, MaxLen
VARIABLES s, pi, j, busy
vars == << s, pi, j, busy >>
Init == s = << >> /\ pi = << >> /\ j = 0 /\ busy = FALSE
First == /\ s = << >> /\ ~busy /\ \E c \in Symbols : s' = << c >>
         /\ pi' = << 0 >> /\ UNCHANGED << j, busy >>
Append1 == /\ s # << >> /\ ~busy /\ Len(s) < MaxLen
           /\ \E c \in Symbols : s' = Append(s, c)
           /\ j' = pi[Len(s)] /\ busy' = TRUE /\ pi' = pi
Fail == /\ busy /\ j > 0 /\ s[Len(s)] # s[j + 1]
        /\ j' = pi[j] /\ UNCHANGED << s, pi, busy >>
Settle == /\ busy /\ (j = 0 \/ s[Len(s)] = s[j + 1])
          /\ LET k == IF s[Len(s)] = s[j + 1] THEN j + 1 ELSE j IN pi' = Append(pi, k)
          /\ j' = 0 /\ busy' = FALSE /\ s' = s
\* a full word is submitted to the implementation (its table contains those of all its prefixes)
Report == /\ ~busy /\ (Len(s) = MaxLen \/ s = << >>)
          /\ Emit(0, << E("kmp", << s >>, pi) >>) /\ UNCHANGED vars
Next == First \/ Append1 \/ Fail \/ Settle \/ Report
Spec == Init /\ [][Next]_vars
Table == \A i \in 1 .. Len(pi) : pi[i] = Border(s, i - 1)
\* judging a table entry by entry, from the entries before it, is judging it by definition
Entries == Len(pi) > 0 => LET i == Len(pi) - 1 IN
             \A x \in 0 .. i : BorderEntry(s, [pi EXCEPT ![i + 1] = x], i) <=> x = Border(s, i)
\* the loop invariant: j is a border of the old word and no longer border can be extended
Loop == busy => LET i == Len(s) - 1 IN
          /\ Matches(s, i - j, j)
          /\ \A k \in j + 1 .. i - 1 : Matches(s, i - k, k) => s[k + 1] # s[i + 1]
===================================================================================
