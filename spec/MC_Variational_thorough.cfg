CONSTANTS
  MaxDocs = 12
  MaxIter = 4
  Depth = 16
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS WordMass DocMass Climbs Below Positive Between Asked Fair Visited Exactly
