CONSTANTS
  Kinds = {"md5", "sha1", "sha224", "sha256", "sha512"}
  ChunkLens = {0, 1, 55, 64}
  MaxLen = 130
  MaxSteps = 4
SPECIFICATION Spec
INVARIANTS BufferIsTail OutputIsDigest PaddingFills
