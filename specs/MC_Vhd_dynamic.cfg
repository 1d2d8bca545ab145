SPECIFICATION Spec
CONSTANTS
 Sectors = 5
 Spb = 2
 MaxWrites = 4
 MaxLayers = 3
 Base = "dynamic"
INVARIANTS ShowsLast Apart Show
