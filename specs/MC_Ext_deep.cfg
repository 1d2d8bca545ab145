SPECIFICATION Spec
INVARIANT MapsWhatIsStored
INVARIANT NoBlockTwice
INVARIANT ListsWhatIsLinked
INVARIANT SectorsFollow
CONSTANT MaxSteps = 5
CHECK_DEADLOCK FALSE
