SPECIFICATION Spec
CONSTANTS
  MaxIds = 3
  Tokens = {0, 1}
  Sizes = {0, 1, 2, 4}
  MaxUndone = 4
CONSTRAINT StateBound
INVARIANTS Chains LiveOnly StackBound IdsFresh RoundTrips AllBack
PROPERTIES Isolation IdsNotReused
CHECK_DEADLOCK FALSE
