SPECIFICATION Spec
CONSTANTS
  MaxVersion = 4
  U = 1
INVARIANTS Survives RightSize Show
CHECK_DEADLOCK FALSE
