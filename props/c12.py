from props import life
from vlib import genframe
LEVEL = "model_checking"
RULE = "the same histories; each event is one call, after which every corpus, prior, and array returned before is compared byte by byte; and sequences of public operations on corpora made from one another, and evaluations, after each of which every object that it may not change is compared"
ASSUMPTIONS = ["words are counted in int32, float32 or float64", "at least two topics", "the kinds of model which run at all (LDA_CVB0, LDA_CVB, LDA_VB_PYTHON_IMPL, LDA_GIBBS, MOM_VB, MOM_GIBBS)",
               "results are the same if they agree to rounding (1e-9, single precision 1e-6)", "corpora with documents that have no words may be refused"]


def models(tier):
    return life.models(tier)


def batches(tier, rng, models):
    n = 400 if tier == "quick" else 6000
    frames = [genframe.scenario(rng, rng.randint(3, 14)) for _ in range(n)]
    return life.batches(tier, rng, models, "T_Lifecycle_C12.cfg") + [
        dict(name="corpora", driver="frame", scenarios=frames, module="T_Frame", cfg="T_Frame.cfg")]
