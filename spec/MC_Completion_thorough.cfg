SPECIFICATION Spec
CONSTANTS Docs = 2 Words = 3 MaxCount = 2 MaxMin = 2
INVARIANTS Conserved Final
