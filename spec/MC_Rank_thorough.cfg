SPECIFICATION Spec
CONSTANTS NC = 4 ND = 2
 Groups <- TheGroups
INVARIANTS Agree Grouped
