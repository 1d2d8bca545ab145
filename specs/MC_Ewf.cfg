SPECIFICATION Spec
CONSTANTS
 Chunked = 4
 MostSegments = 3
 MostTables = 3
INVARIANTS ShowsMedia Local KindsOf Show
CHECK_DEADLOCK FALSE
