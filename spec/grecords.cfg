SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Inits = {"empty", "own", "peer"}
  MaxStates = 2000
  MaxKeys = 2000
INVARIANTS Bounded Distinct Emit
PROPERTIES Signer Alone
CHECK_DEADLOCK FALSE
