SPECIFICATION Spec
CONSTANTS MaxReload = 1
INVARIANTS Agree OneInitiator Kept Emit
CHECK_DEADLOCK FALSE
