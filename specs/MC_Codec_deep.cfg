CONSTANT SampleBytes = {0, 65, 92, 126, 127, 128, 129, 160, 161, 165, 223, 224, 238, 239, 240, 252, 253, 255}
SPECIFICATION Spec
INVARIANTS AsciiHalf Range256 Deterministic Homomorphic
