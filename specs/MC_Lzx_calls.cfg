SPECIFICATION Spec
CONSTANTS Kind = "calls" Most = 7 Alphabet = {232, 0, 1, 255, 183}
INVARIANTS Calls
CHECK_DEADLOCK FALSE
