SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Hows = {"all", "each", "twice"}
  Seeds = {"one"}
INVARIANTS Roles Count Emit
PROPERTY Stays
CHECK_DEADLOCK FALSE
