CONSTANTS
  Calls = 2
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Tally TopicTotals WordTotals DocumentTotals Rows
PROPERTY Fixed
