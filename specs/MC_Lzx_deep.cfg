SPECIFICATION Spec
CONSTANTS Kind = "blocks" Most = 6 Alphabet = {1, 2, 3, 4, 6, 7, 10, 11, 12, 13}
CONSTRAINT Shape
INVARIANTS Blocks Slots
CHECK_DEADLOCK FALSE
