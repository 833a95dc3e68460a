---------------------------------- MODULE AhoAlg ----------------------------------
(* The automaton: a trie of the patterns, failure links and output links set in  *)
(* breadth-first order, missing edges filled with the failure state's edge.      *)
(* Refines Patterns: the state after reading a text is the node of the longest   *)
(* suffix that is a prefix of a pattern.                                         *)
EXTENDS GenLib, Patterns
CONSTANTS Symbols, MaxLen, MaxPats, Text, Alpha, Invalid   \* Invalid: empty patterns are offered as well; Alpha Alpha: which of the driver's alphabets
VARIABLES phase,      \* "insert", "build", "ready"
          next, back, fin, out, label, queue
avars == << phase, next, back, fin, out, label, queue >>
vars == << pvars, avars >>

\* texts containing every binary word of length 4 and 6
DeBruijn4 == << 0, 0, 0, 0, 1, 0, 0, 1, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 0 >>
DeBruijn6 == << 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 1, 0, 0, 0, 1, 0, 1, 0, 0, 0, 1, 1, 1, 0, 0, 1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 1, 0, 1, 0, 1, 0, 1, 1, 1, 0, 1, 1, 0, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0 >>
\* every ternary word of length 3
Ternary3 == << 0, 0, 0, 1, 0, 0, 2, 0, 1, 1, 0, 1, 2, 0, 2, 1, 0, 2, 2, 1, 1, 1, 2, 1, 2, 2, 2, 0, 0 >>
Dictionary == UNION {[1 .. k -> Symbols] : k \in 1 .. MaxLen}
Blank == [c \in Symbols |-> 0]
\* node k is entry k + 1 of the tables; node 0 is the root; -1 is "none"
Init == /\ n = 0 /\ pats = << >> /\ built = FALSE
        /\ phase = "insert" /\ next = << Blank >> /\ back = << 0 >> /\ fin = << -1 >> /\ out = << -1 >>
        /\ label = << << >> >> /\ queue = << >>
\* walks w from node p, adding what is missing; returns the tables and the final node
RECURSIVE Walk(_, _, _, _, _)
Walk(nx, lb, p, w, k) ==
  IF k > Len(w) THEN [nx |-> nx, lb |-> lb, p |-> p]
  ELSE IF nx[p + 1][w[k]] # 0 THEN Walk(nx, lb, nx[p + 1][w[k]], w, k + 1)
  ELSE Walk(Append([nx EXCEPT ![p + 1][w[k]] = Len(nx)], Blank), Append(lb, SubSeq(w, 1, k)), Len(nx), w, k + 1)
Grow(sq, len, x) == sq \o [k \in 1 .. len - Len(sq) |-> x]
DoInsert(w) ==
  /\ phase = "insert" /\ Len(pats) < MaxPats
  /\ LET t == Walk(next, label, 0, w, 1) IN
       /\ next' = t.nx /\ label' = t.lb
       /\ back' = Grow(back, Len(t.nx), 0) /\ out' = Grow(out, Len(t.nx), -1)
       /\ fin' = [Grow(fin, Len(t.nx), -1) EXCEPT ![t.p + 1] = Len(pats)]
  /\ pats' = Append(pats, << w, Len(pats) >>) /\ n' = n + 1
  /\ UNCHANGED << phase, queue, built >>
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN << x >> \o Ordered(S \ {x})
SymbolSeq == Ordered(Symbols)
StartBuild ==
  /\ phase = "insert" /\ pats # << >> /\ phase' = "build"
  /\ queue' = SelectSeq([k \in DOMAIN SymbolSeq |-> next[1][SymbolSeq[k]]], LAMBDA v : v # 0)
  /\ UNCHANGED << pvars, next, back, fin, out, label >>
\* processing one node: edges in symbol order
RECURSIVE Edges(_, _, _)
Edges(st, u, k) ==
  IF k > Len(SymbolSeq) THEN st
  ELSE LET c == SymbolSeq[k]
           fail == st.nx[st.bk[u + 1] + 1][c]
           v == st.nx[u + 1][c] IN
       IF v = 0 THEN Edges([st EXCEPT !.nx[u + 1][c] = fail], u, k + 1)
       ELSE Edges([st EXCEPT !.bk[v + 1] = fail, !.ou[v + 1] = IF fin[fail + 1] # -1 THEN fail ELSE st.ou[fail + 1],
                             !.q = Append(@, v)], u, k + 1)
Pop == /\ phase = "build" /\ queue # << >>
       /\ LET r == Edges([nx |-> next, bk |-> back, ou |-> out, q |-> Tail(queue)], queue[1], 1) IN
            next' = r.nx /\ back' = r.bk /\ out' = r.ou /\ queue' = r.q
       /\ UNCHANGED << pvars, phase, fin, label >>
\* one insertion at a time, each before and after one that must be refused; before that, a list
\* with an empty pattern in every place
ListsRefused == OverAll(Span(Len(pats)), LAMBDA k :
  << Refuses("from", << Alpha, [i \in 1 .. Len(pats) + 1 |-> IF i <= k THEN pats[i][1] ELSE IF i = k + 1 THEN << >> ELSE pats[i - 1][1]] >>) >>)
Empty(k) == Refuses("insert", << << >>, k >>)
Patient == ListsRefused \o << E("new", << Alpha, n >>, << >>), Empty(0) >> \o
  OverAll(pats, LAMBDA p : << E("insert", p, << >>), Empty(n - 1), Empty(p[2]) >>) \o << E("build", << >>, << >>) >>
Script == (IF Invalid THEN Patient ELSE << E("from", << Alpha, [i \in DOMAIN pats |-> pats[i][1]] >>, << >>) >>)
          \o << E("find", << Text >>, SingleMatches(Text)), E("all", << Text >>, AllMatches(Text)),
             E("cnt", << Text >>, Counts(Text)) >>
Finish == /\ phase = "build" /\ queue = << >> /\ phase' = "ready" /\ built' = TRUE
          /\ UNCHANGED << n, pats, next, back, fin, out, label, queue >>
          /\ Emit([alpha |-> Alpha], Script)
Next == (\E w \in Dictionary : DoInsert(w)) \/ StartBuild \/ Pop \/ Finish
Spec == Init /\ [][Next]_vars

\* every node is a prefix, and knows whether it is a pattern
Trie == /\ {label[k] : k \in DOMAIN label} = WordPrefixes \cup {<< >>}
        /\ \A k \in DOMAIN label : fin[k] = IF label[k] \in Words THEN Owner(label[k]) ELSE -1
\* in the finished automaton each step leads to the longest suffix, and the chain of outputs is
\* exactly the patterns that are suffixes
RECURSIVE Chain(_)
Chain(k) == IF k = -1 THEN << >> ELSE << fin[k + 1] >> \o Chain(out[k + 1])
Automaton == phase = "ready" => \A k \in DOMAIN label :
  /\ \A c \in Symbols : LET w == Append(label[k], c) IN
       label[next[k][c] + 1] = SuffixFrom(WordPrefixes, w, Len(w), Reach(Len(w)))
  /\ (IF fin[k] # -1 THEN << fin[k] >> ELSE << >>) \o Chain(out[k]) = Ending(label[k], Len(label[k]))
===================================================================================
