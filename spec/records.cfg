SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Inits = {"empty", "filled", "rich"}
  MaxChains = 5
  MaxKeys = 2000
  MaxArch = 40
INVARIANTS Bounded Archived Emit
PROPERTIES Alone SavedIsSame
CHECK_DEADLOCK FALSE
