SPECIFICATION Spec
CONSTANTS
  MaxText = 49
  KeyLens = {0, 1, 15, 16, 17, 24, 31, 32, 33, 64}
  Blocks = 4
  PadVals = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 48, 49, 64, 128, 255}
  Outs = {0, 1, 31, 32, 33, 64, 80, 96, 255, 1000, 8160, 8161, 9000}
INVARIANTS RoundTrip OnlyPadded DeviationRefused Commutes Emit
CHECK_DEADLOCK FALSE
