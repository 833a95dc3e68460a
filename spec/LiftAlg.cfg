SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3, 4}
INVARIANTS Rows Depths Answers
PROPERTY Terminates
CHECK_DEADLOCK FALSE
