SPECIFICATION Spec
CONSTANTS MaxDev = 2
INVARIANTS EffectsAreGenuine IncompleteIsRefused Emit
CHECK_DEADLOCK FALSE
