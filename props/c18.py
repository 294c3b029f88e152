from vlib import gen, gendmr
LEVEL = "model_checking"
RULE = ("one trace per corpus with features, weights and plan: every run is recorded with all its shorter runs from the same start; "
        "one per corpus of more documents than are weighed at a time; and one per small corpus swept very many times, with how often each tally was seen")
ASSUMPTIONS = ["a run and its shorter runs draw the same random numbers, as training always seeds its generator alike",
               "frequencies are compared with the posterior to six standard deviations, each sweep being taken to be worth a quarter of an independent sample",
               "the optimiser stops where the slope is at most 0.03 nats (more for very many documents)"]


def models(tier):
    return [dict(module="MC_Regression", cfg="MC_Regression.cfg" if tier == "quick" else "MC_Regression_thorough.cfg",
                 must_take=("Draw", "Weigh", "Ask", "Burning", "Burnt", "Sampling", "Update"))]


def batches(tier, rng, models):
    plans = gen.uniq([s for m in models for s in m["scenarios"]])
    q = tier == "quick"
    rng.shuffle(plans)
    scs = [gendmr.scenario(rng, h) for h in plans[:60 if q else len(plans)]] + [gendmr.scenario(rng, wide=i % 4 == 0) for i in range(80 if q else 1200)]
    many = [gendmr.often(rng, 100000 if q else 400000, held=i % 3 == 2) for i in range(12 if q else 60)]
    large = [gendmr.large(rng, n) for n in ([5003] if q else [4999, 5000, 5001, 7200, 10001])]
    return [dict(name="regression", driver="dmr", scenarios=scs, module="T_Regression", cfg="T_Regression.cfg"),
            dict(name="posterior", driver="dmr", scenarios=many, module="T_Regression", cfg="T_Regression.cfg"),
            dict(name="large", driver="dmr", scenarios=large, module="T_Regression", cfg="T_Regression.cfg")]
