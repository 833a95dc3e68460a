SPECIFICATION Spec
CONSTANTS
  MaxM = 24
  MaxE = 20
INVARIANTS Contract Result PowerLoop Operators
CHECK_DEADLOCK FALSE
