SPECIFICATION Spec
CONSTANTS
  Letters = {46, 47, 92, 97}
  MaxName = 3
  MaxDepth = 2
  Kinds = {"ext", "ntfs"}
INVARIANTS OnlyPaths TextAndBack FromTheRoot Separators BackOut RootStays PartsOfName
CHECK_DEADLOCK FALSE
