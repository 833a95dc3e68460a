------------------------------- MODULE FamiliesAlg -------------------------------
(* Two dynamic families and the library's own one.  A family's modulus lives in  *)
(* two words, the modulus m and its reciprocal im (here: the modulus it was      *)
(* computed from), stored one after the other.  Every history of Depth requests  *)
(* is replayed.                                                                  *)
EXTENDS GenLib, Residues
CONSTANTS Depth, Moduli,
          Invalid    \* TRUE: a zero modulus is one of the requests
VARIABLES m, im, step, hist     \* step: << f >> while the second word is being stored
vars == << mod, reg, m, im, step, hist >>
Init == /\ Start /\ m = [f \in Families |-> -1] /\ im = [f \in Families |-> -1] /\ step = << >> /\ hist = << >>
Short == Len(hist) < Depth /\ step = << >>
Log(es) == hist' = Append(hist, es)
\* the first request on families 0 and 1 may find them never set; the library's own family (4) may have
\* been used before in the process, so its histories begin with a set
FirstUse(f) == /\ Short /\ f # 4 /\ Unset(f) /\ m' = [m EXCEPT ![f] = DefaultModulus - 1]
               /\ im' = [im EXCEPT ![f] = DefaultModulus - 1] /\ step' = step
               /\ Log(<< E("fresh", << f >>, << DefaultModulus - 1 >>) >>)
StoreModulus(f, q) == /\ Short /\ m' = [m EXCEPT ![f] = q] /\ step' = << f >> /\ im' = im
                      /\ SetModulus(f, q) /\ Log(<< E("set", << f, q, 0 >>, << >>) >>)
StoreReciprocal == /\ step # << >> /\ im' = [im EXCEPT ![step[1]] = m[step[1]]] /\ step' = << >>
                   /\ UNCHANGED << mod, reg, m, hist >>
\* new values and every kind of operation on them
Use(f) ==
  /\ Short /\ Known(f)
  /\ LET q == mod[f]
         x == ResNat(q, << 3000, 3000, 200 >>)
         y == NegM(q, RedM(q, 5)) IN
     /\ reg' = [reg EXCEPT ![f][0] = x, ![f][1] = y, ![f][2] = MulM(q, x, y)] /\ mod' = mod
     /\ Log(<< E("modulus", << f >>, << q >>),
               E("new", << f, 0, 9, << 0, << 3000, 3000, 200 >> >>, 0 >>, << x >>),
               E("new", << f, 1, 3, << 1, << 5 >> >>, 2 >>, << y >>),
               E("mul", << f, 2, 0, 1, 0 >>, << MulM(q, x, y) >>), E("add", << f, 3, 0, 1, 3 >>, << AddM(q, x, y) >>),
               E("sub", << f, 3, 0, 1, 4 >>, << SubM(q, x, y) >>), E("neg", << f, 3, 0, 0 >>, << NegM(q, x) >>),
               E("pow", << f, 3, 0, << 7, 1 >>, 0 >>, << PowM(q, x, << 7, 1 >>) >>),
               E("addp", << f, 3, 1, 9, << 0, << 3000, 3000, 200 >> >>, 0 >>, << AddM(q, x, y) >>) >>)
  /\ UNCHANGED << m, im, step >>
Reject(f) == /\ Short /\ Invalid /\ Log(<< Refuses("set", << f, -1, 0 >>) >>) /\ UNCHANGED << mod, reg, m, im, step >>
Next == StoreReciprocal \/ \E f \in Families : FirstUse(f) \/ Use(f) \/ Reject(f) \/ \E q \in Moduli : StoreModulus(f, q)
RECURSIVE Flat(_, _)
Flat(h, k) == IF k > Len(h) THEN << >> ELSE h[k] \o Flat(h, k + 1)
Spec == Init /\ [][Next]_vars
\* after a completed change both words belong to the modulus set last
Consistent == step = << >> => m = mod /\ im = mod
Printed == Len(hist) = Depth /\ step = << >> => Emit([k |-> 0], Flat(hist, 1))
===================================================================================
