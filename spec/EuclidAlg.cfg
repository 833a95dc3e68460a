SPECIFICATION Spec
CONSTANTS
  W = 5
  Wide = TRUE
INVARIANTS Keeps Identity NoOverflow
CHECK_DEADLOCK FALSE
