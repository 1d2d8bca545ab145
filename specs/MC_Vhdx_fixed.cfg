SPECIFICATION Spec
CONSTANTS
 Sectors = 5
 Spb = 2
 MaxWrites = 3
 MaxLayers = 3
 MaxUpdates = 1
 Base = "fixed"
INVARIANTS ShowsLast Apart OneCurrent Show
