CONSTANTS Calls = 2
 Noises = 2
 Kinds = {"LDA_CVB0", "LDA_GIBBS", "MOM_VB", "MOM_GIBBS"}
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS KeptAsAsked Repeats TermsUnique FitTransformIsBoth ScoreIsTransformThenScore
PROPERTIES OnlyFitsChangeModels RefusedChangesNothing
