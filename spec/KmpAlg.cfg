SPECIFICATION Spec
CONSTANTS
  Symbols = {1, 2}
  MaxLen = 8
INVARIANTS Table Entries Loop
CHECK_DEADLOCK FALSE
