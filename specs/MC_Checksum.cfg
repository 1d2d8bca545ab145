CONSTANTS
  Alphabet = {0, 1, 128, 255}
  MaxLen = 4
SPECIFICATION Spec
INVARIANTS TypeOK RegisterIsChecksum OutputIsChecksum ContinuationWorks AdlerIsClosedForm ReverseIsMirror
