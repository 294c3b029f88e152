from props import life
LEVEL = "model_checking"
RULE = "the same histories of calls; each event is one call, after which the topics of every estimator are compared with those of before"
ASSUMPTIONS = ["words are counted in int32, float32 or float64", "at least two topics", "the kinds of model which run at all (LDA_CVB0, LDA_CVB, LDA_VB_PYTHON_IMPL, LDA_GIBBS, MOM_VB, MOM_GIBBS)",
               "results are the same if they agree to rounding (1e-9, single precision 1e-6)", "corpora with documents that have no words may be refused"]


def models(tier):
    return life.models(tier)


def batches(tier, rng, models):
    return life.batches(tier, rng, models, "T_Lifecycle_C08.cfg")
