from vlib import gen, genbudget, genlife
LEVEL = "model_checking"
RULE = ("one trace per kind of model, corpus and settings: the states after 0, 1, 2, ... sweeps made one at a time, and runs "
        "of n sweeps with measurements every f, for n and f from the model checker's loops")
ASSUMPTIONS = ["giving up when perplexity no longer falls by one (after the 50th iteration, or the 30th of LDA_CVB) is documented behaviour; whether it does is undecided if within 0.005",
               "the sampler of LDA is compared by the topics of its tokens"]


def models(tier):
    return [dict(module="MC_Budget", cfg="MC_Budget.cfg" if tier == "quick" else "MC_Budget_thorough.cfg", must_take=("Segment", "Rest", "Sweep", "Stop"))]


def batches(tier, rng, models):
    q = tier == "quick"
    hs = gen.uniq([s for m in models for s in m["scenarios"]])
    if not hs:
        hs = [dict(kind=k, n=n, f=f) for k in genlife.KINDS for n in range(1, 10) for f in range(0, 11)]
    scs = []
    for kind in genlife.KINDS:
        ps = [(h["n"], h["f"]) for h in hs if h["kind"] == kind and h["n"] <= 30]
        rng.shuffle(ps)
        if not q:
            ps = ps[:1500]
        for i in range(0, len(ps), 9):
            scs.append(genbudget.scenario(rng, kind, ps[i:i + 9]))
    for kind in ["LDA_CVB0", "LDA_CVB", "MOM_VB", "MOM_GIBBS"] * (4 if q else 40):
        ns = sorted(rng.sample(range(32, 81), 4))
        scs.append(genbudget.scenario(rng, kind, [(n, rng.choice([1, 2, 5, 7, 10, 13, 26, 0])) for n in ns], far=True))
    return [dict(name="budget", driver="budget", scenarios=scs, module="T_Budget", cfg="T_Budget.cfg")]
