SPECIFICATION Spec
CONSTANTS
  H = 5
  Static = TRUE
INVARIANTS Reciprocal Quotient Exact Operators
CHECK_DEADLOCK FALSE
