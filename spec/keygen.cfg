SPECIFICATION Spec
CONSTANTS
  PlainLen = 2
  SessLen = 4
  GroupLen = 4
  MaxCuts = 2
  Sizes = {0, 7}
INVARIANTS Disjoint Consumed Owned CutsDoNothing Emit
CHECK_DEADLOCK FALSE
