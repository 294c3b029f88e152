SPECIFICATION Spec
CONSTANTS MaxRows = 6 MaxCols = 4
INVARIANTS Correct NothingTwice
