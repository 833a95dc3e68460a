SPECIFICATION Spec
CONSTANTS
  N = 5
  Invalid = FALSE
  Gen = TRUE
VIEW View
INVARIANTS Forest SizesRight PartitionInv Shallow
PROPERTY Abs
CHECK_DEADLOCK FALSE
