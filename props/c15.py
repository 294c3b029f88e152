from vlib import gen, genmix
LEVEL = "model_checking"
RULE = ("one trace per corpus, priors and plans: every run is recorded with the same steps made one at a time; "
        "and one per small corpus whose sampler was swept tens of thousands of times, with how often each assignment was seen")
ASSUMPTIONS = ["a run and the same sweeps made one at a time draw the same random numbers from the same seed",
               "frequencies are compared with the posterior to six standard deviations, each sweep being taken to be worth a sixth of an independent sample",
               "variational memberships are compared to 10^-4 or so, what is learnt from them to 10^-6"]


def models(tier):
    return [dict(module="MC_Digamma", cfg="MC_Digamma.cfg", must_take=("Next",)),
            dict(module="MC_Mixture", cfg="MC_Mixture.cfg" if tier == "quick" else "MC_Mixture_thorough.cfg", must_take=("Learn", "Draw", "Ask", "Sweep"))]


def batches(tier, rng, models):
    plans = gen.uniq([s for m in models for s in m["scenarios"]])
    q = tier == "quick"
    rng.shuffle(plans)
    em = [genmix.em(rng) for _ in range(200 if q else 3000)]
    gi = [genmix.gibbs(rng, h) for h in plans[:120 if q else len(plans)]] + [genmix.gibbs(rng) for _ in range(80 if q else 1500)]
    many = [genmix.often(rng, 16000 if q else 150000, held=i % 2 == 1) for i in range(16 if q else 64)]
    mk = lambda n, s: dict(name=n, driver="mixture", scenarios=s, module="T_Mixture", cfg="T_Mixture.cfg")
    return [mk("learning", em), mk("sampling", gi), mk("posterior", many)]
