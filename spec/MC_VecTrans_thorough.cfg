SPECIFICATION Spec
CONSTANTS MaxRows = 8 MaxCols = 5
INVARIANTS Correct NothingTwice
