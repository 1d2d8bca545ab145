SPECIFICATION Spec
CONSTANTS
  MaxVersion = 4
  U = 8
INVARIANTS Survives RightSize Show
CHECK_DEADLOCK FALSE
