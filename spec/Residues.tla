--------------------------------- MODULE Residues ---------------------------------
(* Families of modular integers, as a user sees them.  Family f has a modulus    *)
(* mod[f] + 1 (mod[f] = -1: not known yet) and registers holding values; a value *)
(* is usable until the modulus of its family changes (-1: no usable value).      *)
EXTENDS Modular
CONSTANTS Families, Regs
VARIABLES mod, reg
rvars == << mod, reg >>

DefaultModulus == 998244353
Start == mod = [f \in Families |-> -1] /\ reg = [f \in Families |-> [k \in Regs |-> -1]]
Clear(f) == reg' = [reg EXCEPT ![f] = [k \in Regs |-> -1]]
\* a family with a modulus fixed at compile time; a dynamic family never set; a change of modulus
Fixed(f, mm) == mod[f] = -1 /\ mod' = [mod EXCEPT ![f] = mm] /\ reg' = reg
Unset(f) == mod[f] = -1 /\ mod' = [mod EXCEPT ![f] = DefaultModulus - 1] /\ reg' = reg
SetModulus(f, mm) == mm >= 0 /\ mod' = [mod EXCEPT ![f] = mm] /\ Clear(f)

Known(f) == mod[f] # -1
Has(f, k) == Known(f) /\ k \in Regs /\ reg[f][k] # -1
Put(f, d, v) == mod' = mod /\ reg' = [reg EXCEPT ![f][d] = v]
V(f, k) == reg[f][k]
\* the exact result of a binary operation; "div" only when Divides
Exact(op, mm, x, y) ==
  CASE op = "add" -> AddM(mm, x, y) [] op = "sub" -> SubM(mm, x, y) [] op = "mul" -> MulM(mm, x, y)
\* v is THE result: canonical, and for div the unique solution of y * v = x
IsBinary(op, mm, x, y, v) ==
  IF op = "div" THEN Unit(mm, y) /\ Canonical(mm, v) /\ MulM(mm, y, v) = x ELSE v = Exact(op, mm, x, y)
IsInverse(mm, y, v) == Unit(mm, y) /\ Canonical(mm, v) /\ MulM(mm, y, v) = OneM(mm)
Add3(mm, x, y) == AddM(mm, x, y)
SumOf(f, ks) == FoldM(AddM, mod[f], [i \in DOMAIN ks |-> V(f, ks[i])], 1, 0)
ProductOf(f, ks) == FoldM(MulM, mod[f], [i \in DOMAIN ks |-> V(f, ks[i])], 1, OneM(mod[f]))
===================================================================================
