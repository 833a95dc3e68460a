-------------------------------- MODULE SparseAlg --------------------------------
(* The algorithm: level c of the table holds the folds of all blocks of length   *)
(* 2^c; a query combines two overlapping blocks.  Elements are symbolic blocks   *)
(* <<x, y>> standing for the fold of x..y-1: combining two of them is defined    *)
(* only where it is right for EVERY associative idempotent operation (left one   *)
(* first, no gap, right one last); anything else, the filler included, is        *)
(* poison.  The table is built cell by cell; queries may run when it is done.    *)
EXTENDS GenLib, FiniteSets, SequencesExt
CONSTANTS Sizes,
          Invalid    \* TRUE: every empty or reversed range is asked first
VARIABLES n, c, i, d        \* next cell to fill: d[c][i]; c = Levels: done
vars == << n, c, i, d >>

Poison == << -77, -77 >>
Join(x, y) == IF x # Poison /\ y # Poison /\ x[1] <= y[1] /\ y[1] <= x[2] /\ x[2] <= y[2]
              THEN << x[1], y[2] >> ELSE Poison
RECURSIVE Lg(_)
Lg(k) == IF k <= 1 THEN 0 ELSE 1 + Lg(k \div 2)
Levels(k) == Lg(k) + 1
Init == /\ n \in Sizes /\ c = 1 /\ i = 0
        /\ d = [k \in 0 .. Levels(n) - 1 |-> [j \in 0 .. n - 1 |-> IF k = 0 THEN << j, j + 1 >> ELSE Poison]]
Fill == /\ c < Levels(n)
        /\ d' = [d EXCEPT ![c][i] = Join(d[c - 1][i], d[c - 1][i + 2 ^ (c - 1)])]
        /\ IF i + 2 ^ c < n THEN i' = i + 1 /\ c' = c ELSE i' = 0 /\ c' = c + 1
        /\ n' = n
Get(x, y) == LET k == Lg(y - x) IN Join(d[k][x], d[k][y - 2 ^ k])
Done == c >= Levels(n)
Bads == OverAll(Span(n), LAMBDA x : OverAll(Span(x), LAMBDA y : << Refuses("get", << x, y >>) >>)
                                 \o OverAll(Tops(n + 1), LAMBDA y : << Refuses("get", << y, x >>), Refuses("get", << y, y >>) >>))
Script == << E("symbolic", << n >>, << >>) >> \o (IF Invalid THEN Bads ELSE << >>) \o
  FoldLeft(LAMBDA acc, x : acc \o [y \in 1 .. n - x |-> E("get", << x, x + y >>, << x, x + y >>)], << >>,
           [x \in 1 .. n |-> x - 1])
Next == Fill /\ (c' >= Levels(n) => Emit([n |-> n], Script))
Spec == Init /\ [][Next]_vars /\ WF_vars(Fill)

\* every finished cell is the fold of its block and no cell is poison
Cells == \A k \in DOMAIN d : \A j \in 0 .. n - 1 :
           (k < c \/ (k = c /\ j < i)) /\ j + 2 ^ k <= n => d[k][j] = << j, j + 2 ^ k >>
Answers == Done => \A x \in 0 .. n - 1 : \A y \in x + 1 .. n : Get(x, y) = << x, y >>
InitEmitted == (c = 1 /\ i = 0 /\ Done) => Emit([n |-> n], Script)
Terminates == <>Done
=================================================================================
