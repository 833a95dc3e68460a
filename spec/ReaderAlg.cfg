SPECIFICATION Spec
CONSTANTS
  Symbols = {49, 45, 32, 8195}
  MaxLen = 4
INVARIANTS Whole
CHECK_DEADLOCK FALSE
