SPECIFICATION Spec
CONSTANTS
  Wide = FALSE
INVARIANTS ReadsBack EveryTagCounts WholeOnly NothingBehind KeysHaveNoOrder
CHECK_DEADLOCK FALSE
