SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  NClusters = 5
INVARIANTS ListsFiles FindsFiles
CHECK_DEADLOCK FALSE
