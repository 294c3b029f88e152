SPECIFICATION Spec
CONSTANTS
  MaxFolds = 4
  Steps = 7
INVARIANTS OnlyFinished FilesOfFinished NoMoreThanWanted TriedAreKnown FailuresAreTheRest InOrder
CHECK_DEADLOCK FALSE
