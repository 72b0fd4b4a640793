SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxFuture = 5000
  MaxSkip = 2000
  MaxChains = 5
  MaxArch = 40
  LastResort = 16777215
  P = {"A", "B"}
  MaxSent = 3
  MaxBundles = 2
  Ops = {}
  Tams = {"ver","body","mac","ever","strip","obody","omac","wrap","ctr","rk","forge","reflect"}
  Crashes = {"none","rec-","rec+","otk-","otk+"}
  MaxDepth = 100
  UseOtk = {TRUE, FALSE}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
