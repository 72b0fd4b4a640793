SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 15, 16, 17, 31, 32, 100, 1000}
  BitLens = {0, 17}
INVARIANTS Opens OnlyAuthentic MacFirst Emit
CHECK_DEADLOCK FALSE
