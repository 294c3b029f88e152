CONSTANTS
  Calls = 3
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Tally TopicTotals WordTotals DocumentTotals Rows
PROPERTY Fixed
