SPECIFICATION Spec
INVARIANT RunsAgree
INVARIANT UnitsAgree
INVARIANT TreeAgrees
CONSTANT MaxSteps = 7
CHECK_DEADLOCK FALSE
