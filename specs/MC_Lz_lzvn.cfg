SPECIFICATION Spec
CONSTANTS Kind = "lzvn" Most = 4 Alphabet = {0, 1, 6, 7, 14, 70, 112, 160, 200, 224, 225, 227, 240, 242}
INVARIANTS Machines Elements Lznt1Shifts Coders FreqCodes Values
CHECK_DEADLOCK FALSE
