SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxM = 3
  MaxPast = 1
  Spare = 1
  Gen = FALSE
  Depth = 0
INVARIANTS Rectangular NoDangling Pruned Degrees RefineIsExact
CHECK_DEADLOCK FALSE
