SPECIFICATION Spec
CONSTANTS Folds = {0, 11}
 Ks = {1, 12}
 Ps = {2}
 MaxFiles = 2
 Others = {"lda"}
INVARIANTS OneReportEach NoneLost NoStrangers
CHECK_DEADLOCK FALSE
