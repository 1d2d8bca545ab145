SPECIFICATION Spec
CONSTANTS Kind = "lznt1" Most = 6 Alphabet = {0, 1, 2, 3, 4, 48, 176}
INVARIANTS Machines Elements Lznt1Shifts Coders FreqCodes Values
CHECK_DEADLOCK FALSE
