SPECIFICATION Spec
CONSTANTS Depth = 2 Emit = TRUE
INVARIANTS Whole Injective DictOk EmitHist
