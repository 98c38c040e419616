SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxM = 3
  MaxPast = 0
  Spare = 1
  Gen = FALSE
  Depth = 0
INVARIANTS Rectangular NoDangling Pruned Degrees RefineIsExact
CHECK_DEADLOCK FALSE
