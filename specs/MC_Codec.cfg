CONSTANT SampleBytes = {0, 65, 127, 129, 161, 165, 224, 239, 240, 252, 255}
SPECIFICATION Spec
INVARIANTS AsciiHalf Range256 Deterministic Homomorphic
