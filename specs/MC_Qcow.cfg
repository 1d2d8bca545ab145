SPECIFICATION Spec
CONSTANTS
  Sectors = 9
  Spc = 2
  Cpt = 2
  MaxWrites = 2
  MaxLayers = 3
  Ver = 3
INVARIANTS ShowsLast Apart Ends Show
CHECK_DEADLOCK FALSE
