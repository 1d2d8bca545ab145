SPECIFICATION Spec
CONSTANTS
  Limit = 60000
  Most = 3
INVARIANTS Numbers Near Faithful Tells Modes
CHECK_DEADLOCK FALSE
