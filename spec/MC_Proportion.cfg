CONSTANTS
  MaxC = 4
SPECIFICATION Spec
INVARIANTS Exact SumsToOne Even Monotone Swap Corrections Products
