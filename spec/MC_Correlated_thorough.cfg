CONSTANTS
  MaxIter = 16
  MaxEvery = 17
  Depth = 5
  Priors = {0, 10000, 500000, 1100000}
  Heavy = {90000000, 50000000, 3000000}
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Distributions Accounted Climbs Topics Documents Words Joined Nothing Taken Further Proportions
