SPECIFICATION Spec
CONSTANTS Kind = "codes" Most = 6
INVARIANTS RoundTrip PrefixFree Codes
CHECK_DEADLOCK FALSE
