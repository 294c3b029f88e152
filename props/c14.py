from vlib import gen, gengibbs
LEVEL = "model_checking"
RULE = ("one trace per corpus, priors and plans: every run is recorded with the same sweeps made one at a time; "
        "and one per small corpus whose sampler was swept tens of thousands of times, with how often each assignment was seen")
ASSUMPTIONS = ["a run and the same sweeps made one at a time draw the same random numbers from the same seed",
               "frequencies are compared with the posterior to six standard deviations, each sweep being taken to be worth a sixth of an independent sample"]


def models(tier):
    return [dict(module="MC_Gibbs", cfg="MC_Gibbs.cfg" if tier == "quick" else "MC_Gibbs_thorough.cfg", must_take=("Draw", "Ask", "Burning", "Sampling"))]


def batches(tier, rng, models):
    plans = gen.uniq([s for m in models for s in m["scenarios"]])
    q = tier == "quick"
    rng.shuffle(plans)
    scs = [gengibbs.scenario(rng, h) for h in plans[:160 if q else len(plans)]] + [gengibbs.scenario(rng) for _ in range(160 if q else 2000)]
    many = [gengibbs.often(rng, 150000 if q else 800000, held=i % 3 == 2, rare=i % 2 == 0) for i in range(18 if q else 64)]
    return [dict(name="gibbs", driver="gibbs", scenarios=scs, module="T_Gibbs", cfg="T_Gibbs.cfg"),
            dict(name="posterior", driver="gibbs", scenarios=many, module="T_Gibbs", cfg="T_Gibbs.cfg")]
