SPECIFICATION Spec
CONSTANTS
  MaxSigned = 2
  Lens = {0, 1, 31, 32, 33, 64, 111, 127, 200}
INVARIANTS Correct Unforgeable NonceOnce Emit
CHECK_DEADLOCK FALSE
