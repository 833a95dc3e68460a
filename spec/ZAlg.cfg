SPECIFICATION Spec
CONSTANTS
  Symbols = {1, 2}
  MaxLen = 8
INVARIANTS Table Entries Entries2 Window
CHECK_DEADLOCK FALSE
