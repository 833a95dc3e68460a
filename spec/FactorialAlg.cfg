SPECIFICATION Spec
CONSTANTS
  Primes <- Small
  Invalid = FALSE
INVARIANTS Inverses Exact
CHECK_DEADLOCK FALSE
