SPECIFICATION Spec
CONSTANTS
  Lazy = FALSE
  Sizes = {0, 1, 2, 3}
  Muts = 2
  Kind = "products"
  G <- Pred
VIEW View
INVARIANTS NodesRight QueriesRight SearchesRight
PROPERTY Abs
CHECK_DEADLOCK FALSE
