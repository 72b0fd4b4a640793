SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxAhead = 2000
  MaxKept = 2000
  MaxIds = 2000
  P = {"A", "B", "C"}
  G = {"G", "H"}
  Profiles <- TheProfiles
  First = 1
  Count = 90
  Seed = 1
  BaseDepth = 44
INVARIANTS InvBad InvBound InvOwned InvErased Emit
CHECK_DEADLOCK FALSE
