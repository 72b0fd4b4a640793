SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxAhead = 3
  MaxKept = 3
  MaxIds = 3
  P = {"A", "B", "C"}
  G = {"G"}
  Senders = {"A"}
  MaxSent = 4
  MaxKeys = 2
  MaxDist = 3
  MaxReset = 1
  Tams = {"ver","ct","sig","oct","osig","iter","junk","forge","id","redirect"}
  Crashes = {"none"}
  MaxDepth = 100
INVARIANTS InvBad InvDeliver InvEarly InvErased InvSender InvBounded InvOwned
CHECK_DEADLOCK FALSE
