SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3}
  Muts = 1
  Invalid = FALSE
VIEW View
INVARIANTS GoodTree LayoutRight
PROPERTY Abs
CHECK_DEADLOCK FALSE
