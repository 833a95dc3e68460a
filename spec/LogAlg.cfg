SPECIFICATION Spec
CONSTANTS
  Bits = 10
INVARIANTS Floor Ceiling
CHECK_DEADLOCK FALSE
