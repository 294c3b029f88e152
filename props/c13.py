from vlib import gen, gencvb
LEVEL = "model_checking"
RULE = ("one trace per history of calls of a collapsed variational module: new models, states of documents, training, further training and queries, "
        "with every distribution and total after each of them; calls of one sweep are checked occurrence by occurrence")
ASSUMPTIONS = ["numbers are recorded to seven digits after the point; totals of single precision models are compared to 1 part in 20000",
               "the position an occurrence moves to is checked to 10^-3 (single precision), 1.5 10^-4 (double), or 8% of its variance where the code uses "
               "an approximate exponential; not at all with priors that differ between topics, whose mean the code uses"]


def models(tier):
    q = tier == "quick"
    return [dict(module="MC_Collapsed", cfg="MC_Collapsed.cfg" if q else "MC_Collapsed_thorough.cfg", must_take=("Begin", "Move", "Trained", "Queried")),
            dict(module="MC_Proportion", cfg="MC_Proportion.cfg" if q else "MC_Proportion_thorough.cfg", must_take=("Words", "Topics", "Variances"))]


def batches(tier, rng, models):
    hists = gen.uniq([s for m in models for s in m["scenarios"]])
    n = 90 if tier == "quick" else 1500
    scs = []
    for kind in ("LDA_CVB0", "LDA_CVB"):
        scs += [gencvb.scenario(rng, kind, h["calls"]) for h in rng.sample(hists, min(len(hists), n))]
        scs += [gencvb.scenario(rng, kind) for _ in range(n)]
    return [dict(name="cvb", driver="cvb", scenarios=scs, module="T_Collapsed", cfg="T_Collapsed.cfg")]
