----------------------------------- MODULE CrtAlg -----------------------------------
(* Merging congruences one after the other: the solutions of the first k are kept  *)
(* as x + lcm Z.  The next one, a (x + lcm t) = b (mod m), is an equation for t     *)
(* that the extended Euclidean algorithm solves or shows unsolvable.  For EVERY     *)
(* system up to the bounds: the class kept is exactly the set of solutions, also    *)
(* between the merges, and the theory of Congruences (which judges recorded         *)
(* histories) agrees with trying all numbers.                                       *)
EXTENDS GenLib, Congruences, FiniteSets
CONSTANTS Moduli, As, Bs, MaxLen
VARIABLES sys, k, x, lcm, pc
Small == -2 .. 2
More == -4 .. 4
Tiny == {-1, 0, 2}
vars == << sys, k, x, lcm, pc >>
Quo(p, q) == IF p < 0 THEN -((-p) \div q) ELSE p \div q      \* truncating, q > 0
Rem(p, q) == p - (Quo(p, q) * q)
RECURSIVE ExGcd(_, _)
ExGcd(p, q) == IF q = 0 THEN << 1, 0, p >>
               ELSE LET e == ExGcd(q, p % q) IN << e[2], e[1] - ((p \div q) * e[2]), e[3] >>
Init == /\ \E n \in 0 .. MaxLen : sys \in [1 .. n -> As \X Bs \X Moduli]
        /\ k = 1 /\ x = 0 /\ lcm = 1 /\ pc = "merge"
Merge == /\ pc = "merge" /\ k <= Len(sys)
         /\ LET a == sys[k][1] % sys[k][3]
                m == sys[k][3]
                b == sys[k][2] - (a * x)
                e == ExGcd(a * lcm, m) IN
            IF b % e[3] # 0 THEN pc' = "none" /\ UNCHANGED << x, lcm, k >>
            ELSE LET m1 == m \div e[3] IN
                 /\ x' = x + (lcm * Rem(e[1] * Quo(b, e[3]), m1))
                 /\ lcm' = lcm * m1 /\ k' = k + 1 /\ UNCHANGED pc
         /\ UNCHANGED sys
Close == pc = "merge" /\ k > Len(sys) /\ x' = (x + lcm) % lcm /\ pc' = "some" /\ UNCHANGED << sys, k, lcm >>
Solves(y, n) == \A i \in 1 .. n : ((sys[i][1] * y) - sys[i][2]) % sys[i][3] = 0
RECURSIVE Prod(_)
Prod(n) == IF n = 0 THEN 1 ELSE Prod(n - 1) * sys[n][3]
Result == IF pc = "none" THEN << >> ELSE << ToI(x), ToI(lcm) >>
Arg == [i \in DOMAIN sys |-> << ToI(sys[i][1]), ToI(sys[i][2]), OfInt(sys[i][3]) >>]
Report == pc \in {"none", "some"} /\ Emit([k |-> 0], << E("ex_crt", << Arg >>, Result) >>) /\ UNCHANGED vars
Next == Merge \/ Close \/ Report
Spec == Init /\ [][Next]_vars
Class == pc = "merge" => /\ -lcm < x /\ x < lcm
                         /\ \A y \in 0 .. Prod(k - 1) - 1 : Solves(y, k - 1) <=> (y - x) % lcm = 0
None == pc = "none" => \A y \in 0 .. Prod(k) - 1 : ~Solves(y, k)
Some == pc = "some" => x \in 0 .. lcm - 1
Theory == pc \in {"none", "some"} => IsAnswer(Arg, Result)
===================================================================================
