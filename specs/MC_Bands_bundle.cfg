SPECIFICATION Spec
CONSTANTS
  Sectors = 5
  Spb = 2
  MaxWrites = 5
  Kind = "bundle"
INVARIANTS ShowsLast Apart Show
CHECK_DEADLOCK FALSE
