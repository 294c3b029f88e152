SPECIFICATION Spec
CONSTANTS N = 3 E = 6 V = {80, 97, 100, 101, 102, 120} Shifts = {60, 100, 140}
INVARIANTS NoOverflow Divisible Exact Vanish
