SPECIFICATION Spec
CONSTANTS
  MaxNodes = 14
  MaxEdges = 24
  Width = 3
  Height = 3
  Keep = TRUE
  Depth = 24
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
