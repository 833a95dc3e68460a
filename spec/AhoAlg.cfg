SPECIFICATION Spec
CONSTANTS
  Symbols = {0, 1}
  MaxLen = 3
  MaxPats = 2
  Alpha = 1
  Invalid = FALSE
  Text <- DeBruijn4
INVARIANTS Trie Automaton
CHECK_DEADLOCK FALSE
