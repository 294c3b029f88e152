from vlib import gen, genusers
LEVEL = "model_checking"
RULE = ("one trace per table of groups and users and wanted total: every table of the model (sampled in the quick tier), random ones with several users, and ones read from files; "
        "shares are dealt out and users chosen by them, and by shares of the harness's own")
ASSUMPTIONS = ["at least one group", "the table on file has three fields to a line"]


def models(tier):
    return [dict(module="MC_Selection", cfg="MC_Selection.cfg" if tier == "quick" else "MC_Selection_thorough.cfg", must_take=("NewRound", "Give", "Dealt", "Take"))]


def batches(tier, rng, models):
    ms = gen.uniq([s for m in models for s in m["scenarios"]])
    q = tier == "quick"
    rng.shuffle(ms)
    scs = [genusers.from_model(rng, m) for m in ms[:500 if q else len(ms)]]
    scs += [genusers.random_table(rng) for _ in range(300 if q else 6000)] + [genusers.reading(rng) for _ in range(200 if q else 4000)]
    return [dict(name="users", driver="users", scenarios=scs, module="T_Selection", cfg="T_Selection.cfg")]
