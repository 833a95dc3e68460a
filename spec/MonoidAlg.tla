--------------------------------- MODULE MonoidAlg ---------------------------------
(* The monoid laws, for every value of the 8-bit types and the critical values of   *)
(* the wider ones: the identity is neutral and is the only such value, operations   *)
(* associate and commute where they are defined.  Every combination is executed on  *)
(* the real types.                                                                  *)
EXTENDS GenLib, Monoids
VARIABLES ty, mon, x
vars == << ty, mon, x >>
\* the values at the edges of type t
Near(t) == {MinOf(t), AddI(MinOf(t), One), MkInt(0, MaxOf(t)), AddI(MkInt(0, MaxOf(t)), << 1, << 1 >> >>)}
           \cup {z \in {ToI(v) : v \in -3 .. 3} : Fits(t, z)}
Values(t) == Near(t) \cup (IF t \in {0, 6} THEN {z \in {ToI(v) : v \in -128 .. 255} : Fits(t, z)} ELSE {})
Init == ty \in 0 .. 11 /\ mon \in 0 .. 3 /\ x \in Values(ty)
Near1 == {y \in Near(ty) : Defined(ty, mon, x, y)}
RECURSIVE Listed(_)
Listed(ys) == IF ys = {} THEN << >> ELSE
  LET y == CHOOSE y \in ys : TRUE IN
  << E("combine", << ty, mon, x, y >>, << Combine(mon, x, y) >>),
     E("combine", << ty, mon, y, x >>, << Combine(mon, x, y) >>) >> \o Listed(ys \ {y})
Report == /\ Emit([k |-> 0], << E("identity", << ty, mon >>, << Neutral(ty, mon) >>), E("around", << ty, mon, x >>, << x, x >>),
                               E("zero", << ty >>, << Zero >>), E("one", << ty >>, << One >>),
                               E("min", << ty >>, << MinOf(ty) >>), E("max", << ty >>, << MkInt(0, MaxOf(ty)) >>) >> \o Listed(Near1))
          /\ UNCHANGED vars
Next == Report
Spec == Init /\ [][Next]_vars
IdentityLaw == /\ Fits(ty, Neutral(ty, mon))
               /\ Combine(mon, Neutral(ty, mon), x) = x /\ Combine(mon, x, Neutral(ty, mon)) = x
               /\ (\A z \in Near(ty) : Combine(mon, x, z) = z) => x = Neutral(ty, mon)
Laws == \A y \in Near1 : /\ Combine(mon, x, y) = Combine(mon, y, x)
                         /\ \A z \in Near(ty) : Combine(mon, Combine(mon, x, y), z) = Combine(mon, x, Combine(mon, y, z))
                         /\ mon <= 1 => Combine(mon, x, y) \in {x, y}
===================================================================================
