CONSTANTS
  MaxRuns = 2
  MaxNoise = 1
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Own All
