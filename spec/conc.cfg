SPECIFICATION Spec
CONSTANTS
  N = 3
  Kinds <- AllKinds
  MaxPat = 2
  Calls = 2
  Scratch = FALSE
  Logs = {"none", "own"}
INVARIANTS Alone Constant Fair Emit
CHECK_DEADLOCK FALSE
