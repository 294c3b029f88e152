from vlib import gen
LEVEL = "model_checking"
RULE = ("one trace per link matrix: a random split (twice with one seed) and every fold of a folded split; every 3x3 graph "
        "of the model (sampled in the quick tier) plus random rectangular and symmetric matrices")
ASSUMPTIONS = ["link matrices hold no explicitly stored zeros; symmetric splits are only asked of symmetric matrices"]


def models(tier):
    return [dict(module="MC_LinkSplit", cfg="MC_LinkSplit.cfg", must_take=("Deal", "StartFolds", "Fold"))]


def one(rng, base, sym, K, min_):
    s = gen.forms(rng)
    s["unsorted"] = False
    s["base"] = base
    D = len(base["words"])
    ops = [gen.construct(rng, D), dict(op="splitlinks", symmetric=sym, seed=rng.randrange(1 << 31))]
    ops += [dict(op="foldlinks", fold=f, k=K, min=min_) for f in range(K)]
    s["ops"] = ops
    return s


def batches(tier, rng, models):
    scs = []
    ms = gen.uniq(models[0]["scenarios"]) if models else []
    rng.shuffle(ms)
    for m in ms[:200 if tier == "quick" else 3000]:
        base = gen.corpus(rng, len(m["links"]), 3, links=False)
        base["links"] = [list(r) for r in m["links"]]
        scs.append(one(rng, base, m["sym"], m["k"], m["min"]))
    for _ in range(120 if tier == "quick" else 800):
        D = rng.randint(1, 12)
        base = gen.corpus(rng, D, 3, links=True)
        lm = base["links"]
        sq = len(lm[0]) == D
        sym = sq and all(lm[i][j] == lm[j][i] for i in range(D) for j in range(D)) and rng.random() < .8
        if sq and rng.random() < .4:
            for i in range(D):
                for j in range(i):
                    lm[i][j] = lm[j][i]
            sym = True
        scs.append(one(rng, base, sym, rng.randint(2, 6), rng.choice([0, 1, 2, 3, 5])))
    # a wide, longer graph
    for _ in range(10 if tier == "quick" else 60):
        D = rng.randint(3, 6)
        base = gen.corpus(rng, D, 3, links=True, ncols=rng.randint(20, 40))
        scs.append(one(rng, base, False, rng.randint(2, 10), rng.choice([0, 5, 10, 15])))
    return [dict(name="links", driver="corpus", scenarios=scs, module="T_Corpus", cfg="T_Corpus.cfg")]
