SPECIFICATION Spec
CONSTANTS NC = 3 ND = 2
 Groups <- TheGroups
INVARIANTS Agree Grouped
