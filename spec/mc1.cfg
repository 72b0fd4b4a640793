SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxFuture = 5
  MaxSkip = 5
  MaxChains = 5
  MaxArch = 5
  LastResort = 99
  P = {"A", "B"}
  MaxSent = 4
  MaxBundles = 2
  Ops = {}
  Tams = {}
  Crashes = {"none"}
  MaxDepth = 100
  UseOtk = {TRUE, FALSE}
INVARIANTS InvBad InvAgree InvFresh InvErased InvBounded InvNoDup InvDeliver InvUnique InvHand InvConv
CHECK_DEADLOCK FALSE
