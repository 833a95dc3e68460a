SPECIFICATION Spec
CONSTANTS
  Keys = {0, 1, 2}
  MaxPush = 4
VIEW View
INVARIANTS HeapOrder NoDuplicates
PROPERTY Abs
CHECK_DEADLOCK FALSE
