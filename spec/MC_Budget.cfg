CONSTANTS
  MaxN = 12
  MaxF = 14
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS AllMade Prescribed Rising Within NoQuitUnlogged
PROPERTY Ends
CHECK_DEADLOCK FALSE
