SPECIFICATION Spec
CONSTANTS Kind = "bytes" Most = 4
INVARIANTS RoundTrip PrefixFree Codes
CHECK_DEADLOCK FALSE
