SPECIFICATION Spec
CONSTANTS MaxD = 26 MaxK = 28
INVARIANTS Partition Covered Once
