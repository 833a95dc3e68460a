SPECIFICATION Spec
CONSTANTS
  MaxN = 4000
  MaxB = 40
  MaxM = 24
  MaxE = 20
INVARIANTS Right Contract Pair Roots
CHECK_DEADLOCK FALSE
