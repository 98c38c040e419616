SPECIFICATION Spec
CONSTANTS
  Width = 3
  Height = 2
  MaxLen = 5
INVARIANTS Pick Directions Motion Parting Hole Refining NearestSound Symmetric
CHECK_DEADLOCK FALSE
