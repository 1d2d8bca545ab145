SPECIFICATION Spec
CONSTANTS Kind = "coders" Most = 6 Alphabet = {0, 1, 2, 3, 5}
INVARIANTS Machines Elements Lznt1Shifts Coders FreqCodes Values
CHECK_DEADLOCK FALSE
