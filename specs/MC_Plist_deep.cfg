SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
INVARIANTS ReadsBack EveryTagCounts WholeOnly NothingBehind KeysHaveNoOrder
CHECK_DEADLOCK FALSE
