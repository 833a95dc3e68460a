SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33}
  Calls = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17}
INVARIANTS InBudget Potential Bounded
CHECK_DEADLOCK FALSE
