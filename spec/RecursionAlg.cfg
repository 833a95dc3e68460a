SPECIFICATION Spec
CONSTANTS
  Arities = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
  MaxCalls = 5
INVARIANTS Faithful Frames
CHECK_DEADLOCK FALSE
