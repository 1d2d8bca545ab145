SPECIFICATION Spec
CONSTANTS Key = "type"
 Depth = 4
 Slots = {1,2,3}
INVARIANTS Sound Transparent Paths Scans
