SPECIFICATION Spec
CONSTANTS
  N = 3
  Loops = TRUE
INVARIANTS Right ClosedRight OpenRight Certificates
CHECK_DEADLOCK FALSE
