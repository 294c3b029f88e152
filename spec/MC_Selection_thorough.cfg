CONSTANTS
  G = 4
  MaxSupply = 5
  MaxTarget = 14
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Sound Fair Rounds Selected Never
