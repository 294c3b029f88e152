from vlib import gen
LEVEL = "model_checking"
RULE = ("one trace per (corpus, K): the corpus is built and split for each of the K folds; every size/K pair of the "
        "model plus random corpora (features, links, labels, custom order, dtypes); non-trivial: distinct trace contents")
ASSUMPTIONS = ["corpora of at least two documents and folds that leave a training document",
               "documents are recognised by the corpus's own order, which C04 ties to the original rows"]


def models(tier):
    return [dict(module="MC_Folds", cfg="MC_Folds.cfg" if tier == "quick" else "MC_Folds_thorough.cfg", must_take=("Fold", "Emit"))]


def scenario(rng, D, K, plain):
    s = gen.forms(rng)
    s["base"] = gen.corpus(rng, D)
    folds = list(range(K))
    if rng.random() < .3:
        rng.shuffle(folds)
    s["ops"] = [gen.construct(rng, D, plain)] + \
               [dict(op="fold", fold=f, k=K, debug=rng.random() < .5, pick=0) for f in folds]
    return s


def batches(tier, rng, models):
    scs = [scenario(rng, m["d"], m["k"], False) for m in models[0]["scenarios"]] if models else []
    n = 60 if tier == "quick" else 500
    for _ in range(n):
        D = rng.randint(2, 30)
        scs.append(scenario(rng, D, rng.choice([2, 3, 4, 5, 7, 10, D, D + 1, D + 3]), False))
    # folds of folds: the split composes with an earlier one
    for _ in range(n):
        D, K = rng.randint(6, 20), rng.randint(2, 4)
        s = scenario(rng, D, K, False)
        first = dict(op="prune", minWords=1, minLinks=0, seed=rng.randrange(1 << 30))
        s["ops"] = [s["ops"][0], first] + s["ops"][1:]
        scs.append(s)
    return [dict(name="folds", driver="corpus", scenarios=scs, module="T_Corpus", cfg="T_Corpus.cfg")]
