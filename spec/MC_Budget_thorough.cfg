CONSTANTS
  MaxN = 70
  MaxF = 30
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS AllMade Prescribed Rising Within NoQuitUnlogged
PROPERTY Ends
CHECK_DEADLOCK FALSE
