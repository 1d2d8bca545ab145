SPECIFICATION Spec
CONSTANTS Kind = "adc" Most = 5 Alphabet = {0, 1, 2, 64, 65, 70, 128, 130, 255}
INVARIANTS Machines Elements Lznt1Shifts Coders FreqCodes Values
CHECK_DEADLOCK FALSE
