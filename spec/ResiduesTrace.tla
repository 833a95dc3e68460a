------------------------------- MODULE ResiduesTrace -------------------------------
EXTENDS TraceLib, Residues, Decimal
TraceInit == TraceStart /\ Start
Binary == {"add", "sub", "mul", "div"}
WithPrimitive == [addp |-> "add", subp |-> "sub", mulp |-> "mul", divp |-> "div"]
F == A(1)
D == A(2)
mm == mod[F]
Gives(op, v) == Call(op) /\ Known(F) /\ R = << v >> /\ Put(F, D, v)
TraceNext ==
  \/ Call("static") /\ Fixed(F, A(2)) /\ R = << A(2) >>
  \/ Call("fresh") /\ Unset(F) /\ R = << DefaultModulus - 1 >>
  \/ Call("set") /\ SetModulus(F, A(2))
  \/ Call("modulus") /\ Known(F) /\ R = << mm >> /\ UNCHANGED rvars
  \/ Gives("zero", 0)
  \/ Gives("raw", A(3)) /\ Canonical(mm, A(3))
  \/ Gives("new", Residue(mm, A(4)))
  \/ Gives("parse", Residue(mm, A(3)))
  \* any text: a decimal number gives its residue; what is not a number, or not one of 64 bits, may be refused
  \/ Call("text") /\ Known(F) /\ IsNumber(A(3)) /\ R = << Residue(mm, NumberOf(A(3))) >> /\ Put(F, D, R[1])
  \/ Refused("text") /\ Known(F) /\ ~(IsNumber(A(3)) /\ Fits(3, NumberOf(A(3)))) /\ UNCHANGED rvars
  \/ \E op \in Binary : /\ Call(op) /\ Has(F, A(3)) /\ Has(F, A(4)) /\ Len(R) = 1
                        /\ IsBinary(op, mm, V(F, A(3)), V(F, A(4)), R[1]) /\ Put(F, D, R[1])
  \/ \E op \in DOMAIN WithPrimitive :
       /\ Call(op) /\ Has(F, A(3)) /\ Len(R) = 1
       /\ IsBinary(WithPrimitive[op], mm, V(F, A(3)), Residue(mm, A(5)), R[1]) /\ Put(F, D, R[1])
  \/ Call("neg") /\ Has(F, A(3)) /\ R = << NegM(mm, V(F, A(3))) >> /\ Put(F, D, R[1])
  \/ Call("inv") /\ Has(F, A(3)) /\ Len(R) = 1 /\ IsInverse(mm, V(F, A(3)), R[1]) /\ Put(F, D, R[1])
  \/ Call("pow") /\ Has(F, A(3)) /\ R = << PowM(mm, V(F, A(3)), A(4)) >> /\ Put(F, D, R[1])
  \/ Call("sum") /\ (\A i \in DOMAIN A(3) : Has(F, A(3)[i])) /\ R = << SumOf(F, A(3)) >> /\ Put(F, D, R[1])
  \/ Call("prod") /\ (\A i \in DOMAIN A(3) : Has(F, A(3)[i])) /\ R = << ProductOf(F, A(3)) >> /\ Put(F, D, R[1])
  \* equality, and agreement of hashes, of printed forms and of debug forms
  \/ /\ Call("eq") /\ Has(F, A(2)) /\ Has(F, A(3)) /\ UNCHANGED rvars
     /\ LET b == V(F, A(2)) = V(F, A(3)) IN R = (IF b THEN << 1, 1, 1, 1 >> ELSE << 0, 0, 0, 0 >>)
  \* printed form, read back as a decimal number, and whether it is written canonically
  \/ Call("show") /\ Has(F, A(2)) /\ R = << V(F, A(2)), 1 >> /\ UNCHANGED rvars
  \* a zero modulus is refused; so is dividing by a non-unit
  \/ Refused("set") /\ A(2) = -1 /\ UNCHANGED rvars
  \/ Refused("div") /\ Has(F, A(3)) /\ Has(F, A(4)) /\ ~Unit(mm, V(F, A(4))) /\ UNCHANGED rvars
  \/ Refused("divp") /\ Has(F, A(3)) /\ ~Unit(mm, Residue(mm, A(5))) /\ UNCHANGED rvars
  \/ Refused("inv") /\ Has(F, A(3)) /\ ~Unit(mm, V(F, A(3))) /\ UNCHANGED rvars
  \/ Finished /\ UNCHANGED rvars
TraceSpec == TraceInit /\ [][TraceNext]_<< ep, l, rvars >>
====================================================================================
