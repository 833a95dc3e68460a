SPECIFICATION Spec
CONSTANTS
  NL = 3
  NR = 2
  MaxEdges = 4
VIEW View
INVARIANTS Consistent Maximum
CHECK_DEADLOCK FALSE
