SPECIFICATION Spec
CONSTANTS
  MaxM = 8
  Wide = TRUE
INVARIANTS Agrees
CHECK_DEADLOCK FALSE
