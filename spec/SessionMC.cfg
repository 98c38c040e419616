SPECIFICATION Spec
CONSTANTS
  MaxIds = 2
  Tokens = {0, 1, 2}
  Sizes = {0, 1, 2, 3}
  MaxUndone = 3
CONSTRAINT StateBound
INVARIANTS Chains LiveOnly StackBound IdsFresh RoundTrips AllBack
PROPERTIES Isolation IdsNotReused
CHECK_DEADLOCK FALSE
