SPECIFICATION Spec
CONSTANTS R = 3 C = 2
INVARIANTS Touched
