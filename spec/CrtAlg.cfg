SPECIFICATION Spec
CONSTANTS
  Moduli = {1, 2, 3, 4}
  As <- Small
  Bs <- Small
  MaxLen = 2
INVARIANTS Class None Some Theory
CHECK_DEADLOCK FALSE
