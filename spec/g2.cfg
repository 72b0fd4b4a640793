SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxAhead = 1
  MaxKept = 1
  MaxIds = 2
  P = {"A", "B"}
  G = {"G"}
  Senders = {"A"}
  MaxSent = 3
  MaxKeys = 3
  MaxDist = 4
  MaxReset = 2
  Tams = {"ver","ct","sig","oct","osig","iter","junk","forge","id","redirect"}
  Crashes = {"none","rec-","rec+"}
  MaxDepth = 100
INVARIANTS InvBad InvDeliver InvEarly InvErased InvSender InvBounded InvOwned
CHECK_DEADLOCK FALSE
