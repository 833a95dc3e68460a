SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 31, 32, 33}
  Invalid = FALSE
INVARIANTS Cells Answers InitEmitted
PROPERTY Terminates
CHECK_DEADLOCK FALSE
