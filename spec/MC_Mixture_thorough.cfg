CONSTANTS
  MaxIter = 24
  Depth = 40
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Mass Climbs Below Relabelled Stationary Sequential Numbered Total1 SweepKeeps Prescribed
