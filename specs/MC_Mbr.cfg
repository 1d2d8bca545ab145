SPECIFICATION Spec
CONSTANTS
  MaxSteps = 6
  U = 1
INVARIANTS ListsMade Indexes SizeKnown Show
CHECK_DEADLOCK FALSE
