CONSTANT Points = 33
SPECIFICATION Spec
INVARIANTS Recurrence GammaRecurrence Duplication GammaDuplication Order Slope Known
