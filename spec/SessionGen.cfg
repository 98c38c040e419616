SPECIFICATION Spec
CONSTANTS
  Depth = 36
  MaxIds = 3
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
