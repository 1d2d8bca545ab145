SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS SplitIndependent NothingEarly Independent
