SPECIFICATION Spec
CONSTANTS Kind = "tokens" Most = 3
INVARIANTS RoundTrip PrefixFree Codes
CHECK_DEADLOCK FALSE
