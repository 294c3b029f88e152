from vlib import gen, genvb
LEVEL = "model_checking"
RULE = "one trace per corpus, priors, schedule and calls: how things are after runs of 0, 1, 2, ... iterations from the same start"
ASSUMPTIONS = ["parameters are compared to about 10^-4 a word, or less closely where parameters are small: digamma functions are worked out in fixed point",
               "starts whose parameters are too minute for that (less than 10^-4) are left undecided but for their totals"]


def models(tier):
    return [dict(module="MC_Digamma", cfg="MC_Digamma.cfg", must_take=("Next",)),
            dict(module="MC_Variational", cfg="MC_Variational.cfg" if tier == "quick" else "MC_Variational_thorough.cfg", must_take=("Learn", "Go"))]


def batches(tier, rng, models):
    hs = gen.uniq([s for m in models for s in m["scenarios"]])
    rng.shuffle(hs)
    q = tier == "quick"
    scs = [genvb.scenario(rng, h) for h in hs[:48 if q else len(hs)]] + [genvb.scenario(rng) for _ in range(100 if q else 2500)]
    return [dict(name="variational", driver="vb", scenarios=scs, module="T_Variational", cfg="T_Variational.cfg")]
