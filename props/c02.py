from vlib import gen
LEVEL = "model_checking"
RULE = ("one trace per (corpus, seed, proportion, minimum): every tiny corpus/minimum of the model plus random corpora with "
        "counts up to eight million; the split is made twice with the same seed and once with no minimum")
ASSUMPTIONS = ["which occurrences go where is random, so the specification accepts any deal; the proportion is only judged "
               "for counts of 50 or more, within one eighth"]


def models(tier):
    return [dict(module="MC_Completion", cfg="MC_Completion.cfg" if tier == "quick" else "MC_Completion_thorough.cfg", must_take=("Deal", "Drop"))]


def one(rng, base, min_, num, den, hasOrder=True):
    s = gen.forms(rng)
    s["base"] = base
    D = len(base["words"])
    s["ops"] = [gen.construct(rng, D),
                dict(op="completion", seed=rng.randrange(1 << 31), propNum=num, propDen=den, min=min_, debug=rng.random() < .5, pick=0)]
    return s


def batches(tier, rng, models):
    scs = []
    ms = gen.uniq(models[0]["scenarios"]) if models else []
    ms = [m for m in ms if m["words"]]
    rng.shuffle(ms)
    for m in ms[:150 if tier == "quick" else 2500]:
        D = len(m["words"])
        base = dict(words=[list(r) for r in m["words"]], feats=[], links=[], cats=[rng.randint(0, 9) for _ in range(D)] if rng.random() < .6 else [], dict=[])
        num, den = rng.choice([(1, 2), (1, 2), (1, 4), (3, 4), (9, 10), (1, 10)])
        scs.append(one(rng, base, m["min"], num, den))
    n = 150 if tier == "quick" else 1500
    for i in range(n):
        D, W = rng.randint(1, 10), rng.randint(1, 8)
        base = gen.corpus(rng, D, W, feats=rng.random() < .15, links=rng.random() < .25,
                          maxcount=rng.choice([1, 2, 5, 20, 400, 400, 200000, 8000000]), density=rng.choice([.2, .5, .9]), empty_ok=rng.random() < .3)
        num, den = rng.choice([(1, 2), (1, 2), (1, 2), (1, 4), (3, 4), (9, 10), (1, 10), (1, 1)])
        s = one(rng, base, rng.choice([0, 0, 1, 1, 2, 3]), num, den)
        if s["wtype"] == "float32" and sum(map(sum, base["words"])) >= 1 << 24:
            s["wtype"] = "float64" # single precision can't hold the total
        scs.append(s)
    return [dict(name="completion", driver="corpus", scenarios=scs, module="T_Corpus", cfg="T_Corpus.cfg")]
