SPECIFICATION Spec
CONSTANTS
  N = 4
  Bound = 1
  Kind = "sums"
VIEW View
INVARIANTS Represents Queries InitEmitted
PROPERTY Abs
CHECK_DEADLOCK FALSE
