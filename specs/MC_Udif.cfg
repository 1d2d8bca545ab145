SPECIFICATION Spec
CONSTANTS Disks <- TheDisks Most = 6 Method = "zlib"
INVARIANTS ShowsDisk AnyOrder Show
CHECK_DEADLOCK FALSE
