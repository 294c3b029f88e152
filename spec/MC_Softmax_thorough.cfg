SPECIFICATION Spec
CONSTANTS N = 4 E = 7 V = {80, 92, 97, 99, 100, 101, 102, 107, 120} Shifts = {0, 60, 100, 103, 140, 200}
INVARIANTS NoOverflow Divisible Exact Vanish
