SPECIFICATION Spec
CONSTANTS MaxD = 13 MaxK = 14
INVARIANTS Partition Covered Once
