SPECIFICATION Spec
CONSTANTS R = 3 C = 3
INVARIANTS Touched
