CONSTANTS
  MaxDocs = 6
  MaxIter = 4
  Depth = 3
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS WordMass DocMass Climbs Below Positive Between Asked Fair Visited Exactly
