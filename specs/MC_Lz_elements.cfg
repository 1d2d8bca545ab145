SPECIFICATION Spec
CONSTANTS Kind = "elements" Most = 5 Alphabet = {1, 2, 3, 4, 5, 6}
INVARIANTS Machines Elements Lznt1Shifts Coders FreqCodes Values
CHECK_DEADLOCK FALSE
