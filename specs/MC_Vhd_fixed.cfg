SPECIFICATION Spec
CONSTANTS
 Sectors = 5
 Spb = 2
 MaxWrites = 4
 MaxLayers = 3
 Base = "fixed"
INVARIANTS ShowsLast Apart Show
