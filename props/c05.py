from vlib import gen, genrank
LEVEL = "model_checking"
RULE = ("one trace per set of rankings: both scores, each for three layouts/monotone transforms of the same probabilities; "
        "all rankings of the model (sampled in the quick tier) plus random ones of up to 12 candidates and 10 documents")
ASSUMPTIONS = ["at most 12 candidates and 6 expected links per document, so that the scores are exact in whole units",
               "scores are compared to within one millionth"]


def models(tier):
    return [dict(module="MC_Rank", cfg="MC_Rank.cfg" if tier == "quick" else "MC_Rank_thorough.cfg", must_take=("Down", "NextDoc"))]


def batches(tier, rng, models):
    scs = []
    ms = gen.uniq(models[0]["scenarios"]) if models else []
    rng.shuffle(ms)
    def ops():
        return [dict(genrank.variant(rng), op=k) for k in ("mrr", "map") for _ in range(3)]
    for m in ms[:400 if tier == "quick" else 6000]:
        docs = genrank.from_model(m)
        scs.append(dict(C=len(docs[0]["cands"]), docs=docs, ops=ops()))
    for _ in range(300 if tier == "quick" else 3000):
        C = rng.choice([1, 3, 5, 12, 40, 60])
        scs.append(dict(C=C, docs=genrank.docs_random(rng, rng.randint(1, 10), C), ops=ops()))
    return [dict(name="rank", driver="rank", scenarios=scs, module="T_Rank", cfg="T_Rank.cfg")]
