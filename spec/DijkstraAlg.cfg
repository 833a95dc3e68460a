SPECIFICATION Spec
CONSTANTS
  N = 3
  W = {0, 1, 2}
INVARIANTS Right Sound InitEmitted Certificates
CHECK_DEADLOCK FALSE
