SPECIFICATION Spec
CONSTANTS
  Size = 24
  MapSize = 13
  MaxSteps = 5
INVARIANTS Covers Show
CHECK_DEADLOCK FALSE
