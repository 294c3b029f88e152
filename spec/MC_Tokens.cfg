SPECIFICATION Spec
CONSTANTS D = 2 T = 2 MaxCount = 2 Swaps = 2
INVARIANTS BagKept Delimited
