SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxFuture = 5000
  MaxSkip = 2000
  MaxChains = 5
  MaxArch = 40
  LastResort = 16777215
  P = {"A", "B", "C"}
  Profiles <- TheProfiles
  First = 1
  Count = 110
  Seed = 1
  BaseDepth = 40
INVARIANTS InvBad InvDup InvBound InvAgree InvFresh Emit
CHECK_DEADLOCK FALSE
