from vlib import gen, genlife, genscore
from props import life
LEVEL = "model_checking"
RULE = ("one trace per fitted model: scores of given, inferred, kept and completed documents, and every combination of arguments of the model; "
        "and the same histories of calls as for the estimator's lifecycle, judged by the scores they report")
ASSUMPTIONS = ["given mixtures are in eighths; probabilities are recorded to eight digits, and words less likely than 2 in 100 000 are left undecided",
               "likelihoods are compared to about one part in ten thousand per word",
               "expected scores (of the one kind of model that has them) are judged only by being the same for the same topics and documents",
               "the mixture of a document is inferred again from the same seed to be known to the specification"]


def models(tier):
    return [dict(module="MC_Likelihood", cfg="MC_Likelihood.cfg" if tier == "quick" else "MC_Likelihood_thorough.cfg",
                 must_take=("NextNumber", "Topics", "Request", "Emit"))] + life.models(tier)


def batches(tier, rng, models):
    reqs = gen.uniq([s for s in models[0]["scenarios"]]) if models else []
    n = 22 if tier == "quick" else 200
    scs = []
    for kind in genlife.KINDS:
        for _ in range(n):
            scs.append(genscore.scenario(rng, kind, rng.sample(reqs, min(len(reqs), 6))))
    return [dict(name="scores", driver="scores", scenarios=scs, module="T_Likelihood", cfg="T_Likelihood.cfg")] + \
        life.batches(tier, rng, models[1:], "T_Lifecycle_C09.cfg", per_kind=10, twins=0, replay=80)
