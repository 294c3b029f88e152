SPECIFICATION Spec
CONSTANTS D = 3 MaxK = 3 MaxMin = 2
INVARIANTS RandomOk FoldOk NeverTwice
