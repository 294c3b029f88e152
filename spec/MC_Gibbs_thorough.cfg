CONSTANTS
  MaxIter = 14
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Stationary Numbered Total1 Tallies Distinct Prescribed NoneBurnt
