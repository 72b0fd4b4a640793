SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxAhead = 2000
  MaxKept = 2000
  MaxIds = 2000
  P = {"A", "B"}
  G = {"G"}
  Senders = {"A"}
  MaxSent = 3
  MaxKeys = 2
  MaxDist = 3
  MaxReset = 1
  Tams = {"ver","ct","sig","oct","osig","iter","junk","forge","id","redirect"}
  Crashes = {"none","rec-","rec+"}
  MaxDepth = 100
INVARIANTS InvBad InvDeliver InvEarly InvErased InvSender InvBounded InvOwned Emit
CHECK_DEADLOCK FALSE
