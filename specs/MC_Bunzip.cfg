SPECIFICATION Spec
CONSTANTS Most = 9 Values = {0, 1, 3}
INVARIANTS Transform Runs FrontCodes
CHECK_DEADLOCK FALSE
