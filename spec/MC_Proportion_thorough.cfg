CONSTANTS
  MaxC = 6
SPECIFICATION Spec
INVARIANTS Exact SumsToOne Even Monotone Swap Corrections Products
