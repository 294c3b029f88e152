from props import life
LEVEL = "model_checking"
RULE = "a history is a sequence of creations, fits, transforms, fit_transforms, scores, copies and re-seedings by up to four estimators of any kinds on up to four corpora; all two-call histories of the model (sampled in the quick tier) and random longer ones; each event is one call"
ASSUMPTIONS = ["words are counted in int32, float32 or float64", "at least two topics", "the kinds of model which run at all (LDA_CVB0, LDA_CVB, LDA_VB_PYTHON_IMPL, LDA_GIBBS, MOM_VB, MOM_GIBBS)",
               "results are the same if they agree to rounding (1e-9, single precision 1e-6)", "corpora with documents that have no words may be refused"]


def models(tier):
    return life.models(tier)


def batches(tier, rng, models):
    return life.batches(tier, rng, models, "T_Lifecycle_C07.cfg")
