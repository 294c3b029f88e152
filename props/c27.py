from vlib import gen, genfamily
LEVEL = "model_checking"
RULE = ("one trace per model, corpus and settings: the model after 1, 2, ... sweeps, and then training with measurements, again, in parts, with "
        "documents, words and topics rearranged, a copy, and queries of further documents together, one by one and in parts")
ASSUMPTIONS = ["giving up when perplexity has not fallen by one since the last measurement is documented behaviour, which leaves open whether that last measurement is reported",
               "what is said of sweeps made one at a time is not said of the model with features and a Bohning bound, which makes ten updates in each, nor of its queries, which make at least a hundred",
               "the correlated topic model with a Bohning bound, and its gradient variant, take the covariance of two documents or more",
               "the two models with features and a Bohning bound invert a covariance as it stands: they are run on corpora of four documents or more, each with words and features, and for a few sweeps"]


def models(tier):
    return [dict(module="MC_Correlated", cfg="MC_Correlated.cfg" if tier == "quick" else "MC_Correlated_thorough.cfg", must_take=("Learn", "Ask", "Sweep"))]


def batches(tier, rng, models):
    q = tier == "quick"
    hs = gen.uniq([s for m in models for s in m["scenarios"]]) or [dict(n=n, f=f) for n in range(1, 10) for f in range(11)]
    scs = []
    for kind in genfamily.KINDS:
        ps = [(h["n"], h["f"]) for h in hs]
        rng.shuffle(ps)
        for i in range(0, len(ps), 3 if q else 1):
            scs.append(genfamily.scenario(rng, kind, ps[i:i + 3]))
    return [dict(name="correlated", driver="family", scenarios=scs, module="T_Correlated", cfg="T_Correlated.cfg"),
            dict(name="far", driver="family", scenarios=[genfamily.far(rng, k) for k in genfamily.KINDS * (2 if q else 15)], module="T_Correlated", cfg="T_Correlated.cfg")]
