SPECIFICATION Spec
CONSTANTS Depth = 3 Emit = TRUE
INVARIANTS Whole Injective DictOk EmitHist
