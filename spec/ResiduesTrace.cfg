SPECIFICATION TraceSpec
CONSTANTS
  Families = {0, 1, 2, 3, 4}
  Regs = {0, 1, 2, 3, 4, 5}
ALIAS Where
