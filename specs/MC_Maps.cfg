SPECIFICATION Spec
CONSTANTS
 Size = 8
 Leaf = 2
 Epn = 2
 MaxOps = 2
 Cap = 2
 Keys = 3
INVARIANTS Refines Disjoint Within CacheRefines Show
