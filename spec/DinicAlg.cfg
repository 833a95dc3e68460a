SPECIFICATION Spec
CONSTANTS
  N = 3
  Caps = {1, 2}
  MaxEdges = 3
  MaxCalls = 2
  Invalid = FALSE
VIEW View
INVARIANTS Conserved Residual Optimal Reference
PROPERTY Abs
CHECK_DEADLOCK FALSE
