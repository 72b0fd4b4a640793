SPECIFICATION Spec
CONSTANTS
  MaxReload = 2
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE
