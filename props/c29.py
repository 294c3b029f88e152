from vlib import gen, genreports
LEVEL = "model_checking"
RULE = ("one trace per folder of experiments' files and requests for reports: those of the model (sampled in the quick tier), random ones with many configurations, "
        "folds and other files about, with templates of our own and the built-in ones; and tables of numbers, converted")
ASSUMPTIONS = ["folders' names have no quotes; a text's extension has three letters; numbers are plain decimals that single precision can tell apart in thousandths"]


def models(tier):
    return [dict(module="MC_Reports", cfg="MC_Reports.cfg" if tier == "quick" else "MC_Reports_thorough.cfg", must_take=("Save", "Ask"))]


def batches(tier, rng, models):
    ms = gen.uniq([s for m in models for s in m["scenarios"]])
    q = tier == "quick"
    rng.shuffle(ms)
    scs = [genreports.from_model(rng, m) for m in ms[:400 if q else 6000]]
    scs += [genreports.scenario(rng) for _ in range(200 if q else 3000)]
    scs += [genreports.tables(rng) for _ in range(150 if q else 3000)]
    return [dict(name="reports", driver="reports", scenarios=scs, module="T_Reports", cfg="T_Reports.cfg")]
