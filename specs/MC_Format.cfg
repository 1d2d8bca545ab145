SPECIFICATION Spec
CONSTANTS
  MaxRows = 5
  MaxArray = 4
INVARIANTS DumpReadsBack LinesAligned OffsetsRise ArrayComplete ArrayRows
