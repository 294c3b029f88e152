from vlib import gen, genrank
LEVEL = "model_checking"
RULE = ("one trace per set of rankings: precision and recall for several lists of cut-offs and groups and layouts; "
        "rankings of the model (sampled) plus random ones, where expected links need not be candidates")
ASSUMPTIONS = ["at most 12 candidates and 6 expected links per document; cut-offs from 1 to 100; groups are ranges of "
               "non-negative numbers without repetition, optionally with the everything group among them",
               "values are compared to within one hundred thousandth"]

GROUPS = [[], [[-1, -1]], [[0, 2]], [[1, 1], [2, 2], [3, 9]], [[1, 3], [2, 5]], [[2, 5], [1, 3]], [[3, 3], [-1, -1]],
          [[-1, -1], [0, 1], [1, 4]], [[5, 9]], [[0, 0]], [[1, 100]], [[2, 3], [3, 4], [-1, -1], [4, 5]]]


def models(tier):
    return [dict(module="MC_Rank", cfg="MC_Rank.cfg" if tier == "quick" else "MC_Rank_thorough.cfg", must_take=("Down", "NextDoc"))]


def batches(tier, rng, models):
    scs = []
    ms = gen.uniq(models[0]["scenarios"]) if models else []
    rng.shuffle(ms)

    def ops():
        out = []
        for _ in range(4):
            at = rng.choice(["list", "list", "list", "single", "default"])
            msx = [100] if at == "default" else sorted(rng.sample([1, 2, 3, 4, 5, 7, 10, 11, 12, 13, 50, 100], rng.randint(1, 4)))
            if at == "single":
                msx = msx[:1]
            if rng.random() < .3:
                rng.shuffle(msx)
            out.append(dict(genrank.variant(rng), op="precrec", at=at, ms=msx, giveGroups=rng.random() < .8, groups=rng.choice(GROUPS)))
        return out
    for m in ms[:200 if tier == "quick" else 4000]:
        docs = genrank.from_model(m)
        scs.append(dict(C=len(docs[0]["cands"]), docs=docs, ops=ops()))
    for _ in range(400 if tier == "quick" else 3000):
        C = rng.choice([1, 3, 5, 12, 40, 60])
        scs.append(dict(C=C, docs=genrank.docs_random(rng, rng.randint(1, 10), C, loose=True), ops=ops()))
    return [dict(name="precrec", driver="rank", scenarios=scs, module="T_Rank", cfg="T_Rank.cfg")]
