CONSTANTS
  MaxIter = 24
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Stationary Whole Derivative Exponentials Prescribed Allotted Ends Fresh
