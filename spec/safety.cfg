SPECIFICATION Spec
CONSTANTS
  First = 1
  Count = 2000
  Seed = 1
INVARIANTS Symmetric SixtyDigits Sensitive Emit
CHECK_DEADLOCK FALSE
