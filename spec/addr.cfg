SPECIFICATION Spec
CONSTANTS
  Letters = {"a", "1", ":", "2"}
  MaxName = 4
  Devices <- TheDevices
INVARIANTS Unique Emit
CHECK_DEADLOCK FALSE
