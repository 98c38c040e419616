SPECIFICATION Spec
CONSTANTS
  MaxNodes = 4
  MaxEdges = 4
  Width = 2
  Height = 1
  Keep = FALSE
  Depth = 0
INVARIANTS Sound CellsSound CompactSound
CHECK_DEADLOCK FALSE
