from vlib import gen
LEVEL = "model_checking"
RULE = ("one trace per corpus: every document-word matrix of the model (sampled in the quick tier) and random ones are expanded by each "
        "implementation, directly and as part of a fresh query state, in every representation; and token lists tallied by topic")
ASSUMPTIONS = ["counts are whole numbers", "an unsupported representation may be refused with ValueError", "at least one token in the corpus"]


def models(tier):
    return [dict(module="MC_Tokens", cfg="MC_Tokens.cfg" if tier == "quick" else "MC_Tokens_thorough.cfg",
                 must_take=("Emit", "NextElement", "NextDoc", "Expanded", "Swap"))]


def one(rng, words):
    D, T = len(words), len(words[0])
    ops = []
    full = all(any(r) for r in words)
    b = lambda p: rng.random() < p
    for impl in ("cvb", "cvb0"):
        for dt in ("int32", "float32", "float64"):
            ops.append(dict(op="wordlist", impl=impl, words=words, dtype=dt, unsorted=b(.3), zeros=b(.2), spread=rng.choice([1, 1, 50, 300, 9000])))
        if b(.2):
            ops.append(dict(op="wordlist", impl=impl, words=words, dtype="int64"))
    ops.append(dict(op="flatten", impl="gibbs", words=words, dtype="int32", unsorted=b(.3), zeros=b(.2), spread=rng.choice([1, 1, 50, 300, 9000])))
    ops.append(dict(op="flatten", impl="dmr", words=words, dtype="uint16", unsorted=b(.3), zeros=b(.2), spread=rng.choice([1, 1, 50, 300, 9000])))
    for impl, dts in (("cvb", ["int32", "float32", "float64"]), ("cvb0", ["int32", "float32", "float64"]),
                      ("gibbs", ["int32", "int64", "float32", "float64", "uint16"]), ("dmr", ["uint16"])):
        if full:
            ops.append(dict(op="query", impl=impl, words=words, dtype=rng.choice(dts), K=rng.randint(2, 5), seed=rng.randrange(10 ** 6), unsorted=b(.3)))
    K = rng.randint(1, 4)
    toks = [[j for j in range(T) for _ in range(words[d][j])] for d in range(D)]
    for t in toks:
        rng.shuffle(t)
    def spread():
        z = [0] * K
        for _ in range(8):
            z[rng.randrange(K)] += 1
        return z
    for impl in ("cvb", "cvb0"):
        ops.append(dict(op="counts", impl=impl, toks=toks, T=T, K=K, z=[[spread() for _ in t] for t in toks], slack=rng.choice([0, 0, 2]),
                        dtype=rng.choice(["float32", "float64"])))
    for impl in ("gibbs", "dmr"):
        ops.append(dict(op="tally", impl=impl, toks=toks, T=T, K=K, topic=[[rng.randrange(K) for _ in t] for t in toks]))
    return dict(ops=ops)


def batches(tier, rng, models):
    ms = [m["words"] for m in gen.uniq(models[0]["scenarios"])] if models else []
    ms = [w for w in ms if any(any(r) for r in w)]
    rng.shuffle(ms)
    scs = [one(rng, w) for w in ms[:70 if tier == "quick" else 1500]]
    for _ in range(80 if tier == "quick" else 800):
        D, T = rng.choice([1, 1, 2, 3, 5, 8]), rng.choice([1, 2, 4, 7])
        p = rng.choice([.2, .6, 1])
        w = [[rng.randint(1, rng.choice([1, 3, 9])) if rng.random() < p else 0 for _ in range(T)] for _ in range(D)]
        w[rng.randrange(D)][rng.randrange(T)] += rng.choice([1, 1, 1, 1, 1, 1, 300])
        if rng.random() < .6:
            for r in w:
                if not any(r):
                    r[-1] = 1
        scs.append(one(rng, w))
    return [dict(name="tokens", driver="tokens", scenarios=scs, module="T_Tokens", cfg="T_Tokens.cfg")]
