SPECIFICATION Spec
CONSTANTS D = 2 T = 3 MaxCount = 2 Swaps = 3
INVARIANTS BagKept Delimited
