SPECIFICATION Spec
INVARIANT MapsWhatIsStored
INVARIANT NoBlockTwice
INVARIANT ListsWhatIsLinked
INVARIANT SectorsFollow
CONSTANT MaxSteps = 4
CHECK_DEADLOCK FALSE
