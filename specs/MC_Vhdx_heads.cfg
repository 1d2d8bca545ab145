SPECIFICATION Spec
CONSTANTS
 Sectors = 5
 Spb = 2
 MaxWrites = 1
 MaxLayers = 3
 MaxUpdates = 6
 Base = "fixed"
INVARIANTS OneCurrent Show
PROPERTIES TornKeeps
