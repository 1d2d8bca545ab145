SPECIFICATION Spec
INVARIANT RunsAgree
INVARIANT UnitsAgree
INVARIANT TreeAgrees
CONSTANT MaxSteps = 6
CHECK_DEADLOCK FALSE
