CONSTANTS
  MaxRuns = 2
  MaxNoise = 2
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Own All
