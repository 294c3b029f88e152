CONSTANTS
  D = 3
  T = 2
  MaxCount = 2
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Facts Lossless Exact Roots Metric
CHECK_DEADLOCK FALSE
