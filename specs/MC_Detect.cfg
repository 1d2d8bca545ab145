SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Sizes = {4, 62, 90, 511, 512, 580, 592, 1082, 4104}
VIEW View
INVARIANTS Separate SamePlace Short Plain Cut
CHECK_DEADLOCK FALSE
