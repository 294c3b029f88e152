CONSTANTS
  MaxIter = 9
  MaxEvery = 10
  Depth = 1
  Priors = {0, 500000}
  Heavy = {90000000, 40000000}
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Distributions Accounted Climbs Topics Documents Words Joined Nothing Taken Further Proportions
