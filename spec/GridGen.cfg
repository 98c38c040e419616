SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxM = 6
  MaxPast = 8
  Spare = 4
  Gen = TRUE
  Depth = 12
INVARIANTS Rectangular NoDangling Emit
CHECK_DEADLOCK FALSE
