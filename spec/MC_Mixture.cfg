CONSTANTS
  MaxIter = 8
  Depth = 4
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Mass Climbs Below Relabelled Stationary Sequential Numbered Total1 SweepKeeps Prescribed
