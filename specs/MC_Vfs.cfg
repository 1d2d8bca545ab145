SPECIFICATION Spec
CONSTANTS Key = "type"
 Depth = 3
 Slots = {1,2}
INVARIANTS Sound Transparent Paths Scans
