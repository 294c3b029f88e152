CONSTANTS
  G = 3
  MaxSupply = 6
  MaxTarget = 14
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Sound Fair Rounds Selected Never
