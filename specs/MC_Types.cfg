SPECIFICATION Spec
CONSTANTS
 Alphabet = {0, 65, 92, 97, 223, 123, 55296, 56320}
 MaxLen = 3
INVARIANTS TotalOrder TextInjective CutIsPrefix CutIsMax FoldOnce RoundTrip UuidRoundTrip
