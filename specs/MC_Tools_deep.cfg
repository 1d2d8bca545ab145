SPECIFICATION Spec
INVARIANTS ReadsBack OneField
CONSTANTS
  Alphabet = {10, 47, 58, 92, 97, 120, 124, 133, 8232, 65534, 55357}
  Most = 5
  Bare = {}
