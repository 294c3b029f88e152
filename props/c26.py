from vlib import gen, gensimilar
LEVEL = "model_checking"
RULE = ("one trace per corpus: every corpus, set of links and list of documents of the model (sampled in the quick tier), and random ones with repeated, empty and nearly equal documents, "
        "queries by other documents, lists in any order, thresholds from links and of the harness's own, and similarities of words and of topics")
ASSUMPTIONS = ["topic similarity in double precision, of documents that all have words", "some document has a word", "similarities of words to 0.0012 and of distances between topics to 0.07%"]


def models(tier):
    return [dict(module="MC_Similarity", cfg="MC_Similarity.cfg" if tier == "quick" else "MC_Similarity_thorough.cfg", must_take=("Worst", "Offer", "Turn"))]


def batches(tier, rng, models):
    ms = gen.uniq([s for m in models for s in m["scenarios"]])
    q = tier == "quick"
    rng.shuffle(ms)
    scs = [x for x in (gensimilar.from_model(rng, m) for m in ms[:250 if q else 6000]) if x]
    scs += [gensimilar.scenario(rng, "tfidf") for _ in range(350 if q else 7000)] + [gensimilar.scenario(rng, "lda") for _ in range(150 if q else 3000)]
    return [dict(name="similar", driver="similar", scenarios=scs, module="T_Similarity", cfg="T_Similarity.cfg")]
