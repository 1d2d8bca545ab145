SPECIFICATION Spec
CONSTANTS
  Limit = 6000
  Most = 2
INVARIANTS Numbers Near Faithful Tells Modes
CHECK_DEADLOCK FALSE
