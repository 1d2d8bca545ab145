CONSTANTS
  Starts <- StartSet
  Span = 9132
SPECIFICATION Spec
INVARIANTS ClosedFormIsMachine ValidDate ClockAgrees
