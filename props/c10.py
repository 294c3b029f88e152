from props import life
LEVEL = "model_checking"
RULE = "the same histories, most of them with a second estimator that has the settings and seed of another and repeats its calls on equal corpora after other estimators were trained; each event is one call"
ASSUMPTIONS = ["words are counted in int32, float32 or float64", "at least two topics", "the kinds of model which run at all (LDA_CVB0, LDA_CVB, LDA_VB_PYTHON_IMPL, LDA_GIBBS, MOM_VB, MOM_GIBBS)",
               "results are the same if they agree to rounding (1e-9, single precision 1e-6)", "corpora with documents that have no words may be refused"]


def models(tier):
    return life.models(tier)


def batches(tier, rng, models):
    return life.batches(tier, rng, models, "T_Lifecycle_C10.cfg")
