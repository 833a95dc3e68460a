SPECIFICATION Spec
CONSTANTS
  Families = {0, 1, 4}
  Regs = {0, 1, 2, 3}
  Depth = 4
  Invalid = FALSE
  Moduli = {0, 6, 2147483647}
INVARIANTS Consistent Printed
CHECK_DEADLOCK FALSE
