---------------------------------- MODULE Monoids ----------------------------------
(* The built-in monoids and the constants of the primitive integer types.         *)
(* Monoids: 0 max, 1 min, 2 additive, 3 multiplicative.                            *)
EXTENDS BigInt
Zero == << 0, << >> >>
One == << 0, << 1 >> >>
Combine(mon, x, y) == CASE mon = 0 -> IF LessI(x, y) THEN y ELSE x
                        [] mon = 1 -> IF LessI(x, y) THEN x ELSE y
                        [] mon = 2 -> AddI(x, y)
                        [] mon = 3 -> MulI(x, y)
\* the only value that leaves every value of the type unchanged
Neutral(ty, mon) == CASE mon = 0 -> MinOf(ty) [] mon = 1 -> MkInt(0, MaxOf(ty)) [] mon = 2 -> Zero [] mon = 3 -> One
Defined(ty, mon, x, y) == Fits(ty, Combine(mon, x, y))
Constant(ty, name) == CASE name = "zero" -> Zero [] name = "one" -> One
                        [] name = "min" -> MinOf(ty) [] name = "max" -> MkInt(0, MaxOf(ty))
\* Element types of a user's own: pairs whose sum and product keep the first coordinate that is
\* not zero from the left and the second from the right (associative, not commutative), ordered by
\* the first coordinate only, between << -9, -9 >> and << 9, 9 >>.
OwnNeutral(mon) == CASE mon = 0 -> << -9, -9 >> [] mon = 1 -> << 9, 9 >> [] OTHER -> << 0, 0 >>
OwnBoth(x, y) == << IF x[1] # 0 THEN x[1] ELSE y[1], IF y[2] # 0 THEN y[2] ELSE x[2] >>
\* what the named operation may give: of operands that compare equal either is the larger
OwnCombine(mon, x, y) == CASE mon = 0 -> {z \in {x, y} : z[1] >= x[1] /\ z[1] >= y[1]}
                           [] mon = 1 -> {z \in {x, y} : z[1] <= x[1] /\ z[1] <= y[1]}
                           [] OTHER -> {OwnBoth(x, y)}
===================================================================================
