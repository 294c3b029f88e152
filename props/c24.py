from vlib import gen, genresults
LEVEL = "model_checking"
RULE = ("one trace per log: every log of the model (sampled in the quick tier) and random ones, with titles, values and other output of the harness's choice, "
        "read and then written as a table, which is read back")
ASSUMPTIONS = ["a run that leaves a measure out reports the one after it, or is followed by a blank line", "tables are complete"]


def models(tier):
    return [dict(module="MC_Results", cfg="MC_Results.cfg" if tier == "quick" else "MC_Results_thorough.cfg",
                 must_take=("Title", "Report", "Noise", "Written", "SkipTitle", "ReadTitle", "First", "Found", "Missing", "Skip"))]


def batches(tier, rng, models):
    ms = gen.uniq([s for m in models for s in m["scenarios"]])
    q = tier == "quick"
    rng.shuffle(ms)
    scs = [genresults.dress(rng, m["runs"], m["lines"]) for m in ms[:130 if q else 4000]] + [genresults.random_log(rng, i % 25 == 0) for i in range(130 if q else 2500)]
    return [dict(name="results", driver="results", scenarios=scs, module="T_Results", cfg="T_Results.cfg")]
