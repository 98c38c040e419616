SPECIFICATION Spec
CONSTANTS
  Columns = 3
  Rows = 1
  Size = 8
  Smallest = 2
VIEW Cover
INVARIANTS Sound HangingSound Refutes
PROPERTIES Step
CHECK_DEADLOCK FALSE
