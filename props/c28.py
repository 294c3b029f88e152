from vlib import gen, genexperiment
LEVEL = "model_checking"
RULE = ("one trace per experiment: everything that a model is asked to do, with the documents it is given, and then what is printed and saved; "
        "directly and through the command line, with failures in any step of any repetition")
ASSUMPTIONS = ["the experiments are run with a model that records what it is asked, rather than with those of the library",
               "rankings are checked of up to twelve candidates, six of them expected",
               "what remains of a run in which every fold failed is left open"]


def models(tier):
    return [dict(module="MC_Experiment", cfg="MC_Experiment.cfg" if tier == "quick" else "MC_Experiment_thorough.cfg", must_take=("Fail", "Succeed", "Emit"))]


def batches(tier, rng, models):
    q = tier == "quick"
    hs = gen.uniq([s for m in models for s in m["scenarios"]]) or [dict(n=n, stop=s, fails=[]) for n in range(1, 4) for s in range(0, 4)]
    G = genexperiment
    quiet = [h for h in hs if not any(h["fails"])]
    perp = [G.scenario(rng, "perplexity", h["n"], h["stop"], h["fails"]) for h in rng.sample(hs, min(len(hs), 120 if q else 1500)) if h["n"] > 1 or not any(h["fails"])]
    perp += [G.scenario(rng, "perplexity", h["n"], h["stop"]) for h in quiet]
    perp += [G.scenario(rng, "perplexity", rng.randint(1, 3), 0, (), "run") for _ in range(30 if q else 200)]
    hash_ = [G.scenario(rng, "hashtags", h["n"], h["stop"], [f if f < 6 else 0 for f in h["fails"]]) for h in rng.sample(hs, min(len(hs), 30 if q else 300))
             if h["n"] > 1 and all(f < 6 for f in h["fails"])]
    hash_ += [G.scenario(rng, "hashtags", n, stop) for n in (2, 3, 4) for stop in range(n) for _ in range(1 if q else 5)]
    out = [dict(name="perplexity", driver="experiment", scenarios=perp, module="T_Experiment", cfg="T_Experiment.cfg"),
           dict(name="hashtags", driver="experiment", scenarios=hash_, module="T_Experiment", cfg="T_Experiment.cfg")]
    for flow in ("tags", "linkmap", "linkprec", "insample", "outsample"):
        n = 14 if q else 150
        scs = [G.scenario(rng, flow, rng.randint(2, 4), rng.choice([0, 0, 1, 2]) if flow != "linkmap" else 0) for _ in range(n)]
        for s in scs:
            s["stop"] = min(s["stop"], s["nfolds"])
        out.append(dict(name=flow, driver="experiment", scenarios=scs, module="T_Experiment", cfg="T_Experiment.cfg"))
    out.append(dict(name="pieces", driver="experiment", scenarios=[G.pieces(rng) for _ in range(60 if q else 1000)], module="T_Pieces", cfg="T_Pieces.cfg"))
    out.append(dict(name="real", driver="experiment", scenarios=[G.real(rng, c, e) for _ in range(1 if q else 6) for c, e in G.REAL], module="T_Pieces", cfg="T_Pieces.cfg"))
    return out
