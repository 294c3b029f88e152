"""Experiments: corpora whose documents differ, ways in which the repetitions go, and settings"""
CMDS = ["ctm_bouchard", "ctm_bohning", "stm_yv_bouchard", "stm_yv_bohning", "stm_uyv_bohning", "lda_cvb", "lda_cvb0", "lda_vb", "lda_svb",
        "lda_gibbs", "rtm_vb", "mtm_vb", "mtm2_vb", "lro_vb", "dmr", "sim_lda_vb", "mom_em", "mom_gibbs"]
EVALS = dict(perplexity="perplexity", tags="tag_prec_at_m", hashtags="hashtag_prec_at_m", linkmap="meanavgprec_all", linkprec="meanprecrec_all",
             insample="lro_meanprecrec_all", outsample="lro_meanprecrec_featsplit")
NAMES = ["stub", "lro/vb", "stm-yv/bohning", "sim/lda/vb", "mtm2/vb", "a-b/c"]
FLOWS = ["perplexity", "tags", "hashtags", "linkmap", "linkprec", "insample", "outsample"]


def corpus(rng, D, T, F, dens, maxcount, minwords):
    seen, words = set(), []
    while len(words) < D:
        r = [rng.randint(1, maxcount) if rng.random() < dens else 0 for _ in range(T)]
        if sum(map(bool, r)) >= minwords and tuple(r) not in seen:
            seen.add(tuple(r))
            words.append(r)
    feats = [[rng.choice([0, 0, 1, 1, 2]) for _ in range(F)] for _ in range(D)] if F else []
    if F and rng.random() < .3:
        j = rng.randrange(F)
        for r in feats:
            r[j] = 1
    return words, feats


def links(rng, D, lo, hi):
    out = []
    for d in range(D):
        n = rng.randint(lo, hi)
        c = set(rng.sample(range(D), min(n, D)))
        out.append([rng.randint(1, 3) if j in c else 0 for j in range(D)])
    return out


def scenario(rng, flow, n=3, stop=0, fails=(), via=None):
    via = via or rng.choice(["call", "call", "run"])
    ranked = flow in ("tags", "linkmap", "linkprec", "insample", "outsample")
    T = rng.randint(5, 9)
    # a ranking has no more than 12 candidates
    D = rng.randint(7, 12) if flow in ("linkmap", "linkprec", "insample", "outsample") else rng.randint(6, 16) if flow == "tags" else rng.randint(12, 26) if flow == "hashtags" else rng.randint(4, 14)
    D = max(D, 2 * n + 1)
    F = rng.randint(2, 4) if flow == "outsample" else rng.choice([0, 0, 2, 3])
    few = 3 if via == "call" else rng.choice([1, 3])
    words, feats = corpus(rng, D, T, F, rng.choice([.5, .7, .9]), rng.choice([2, 9]), few)
    limit = 0
    if via == "run" and flow in ("perplexity", "tags") and rng.random() < .4:
        limit = D
        more, mf = corpus(rng, rng.randint(1, 4), T, F, .7, 9, 3)
        words, feats = words + more, feats + mf
    if few < 3:                                  # there have to be enough that are long enough
        for i in range(D):
            if i % 5 and sum(map(bool, words[i])) < 3:
                words[i] = [w or 1 + (i * 7 + j) % 5 for j, w in enumerate(words[i])]
    keeps = [i for i in range(limit or len(words)) if sum(map(bool, words[i])) >= 3]
    lm = []
    mask = []
    if flow in ("linkmap", "linkprec"):
        lm = links(rng, len(words), 0, 6)
    elif flow == "insample":
        lm = links(rng, len(words), 3, 9)
    elif flow == "outsample":
        lm = links(rng, len(words), 2, 6)
        mask = rng.sample(range(1, F + 1), rng.randint(1, F))
        # some document is without any of these, and each has some
        for i, d in enumerate(keeps):
            if i % 3 == 0:
                for j in mask:
                    feats[d][j - 1] = 0
            elif i % 3 == 1:
                feats[d][mask[(i // 3) % len(mask)] - 1] = 1
        for j, m in enumerate(mask):
            feats[keeps[(3 * j + 1) % len(keeps)]][m - 1] = 1
    elif flow == "perplexity" and rng.random() < .4:
        lm = links(rng, len(words), 0, 4)
    K = rng.randint(2, 6) if not ranked and flow != "hashtags" else len(words)
    vals = rng.sample(range(1, K * T + 1), K * T)
    vocab = [[vals[k * T + t] for t in range(T)] for k in range(K)]
    dic = [("#" if t % 2 else "w") + "tag%d" % t for t in range(T)]
    tags, prop = [1], 100
    if flow == "hashtags":
        tags = [t + 1 for t in range(T) if t % 2]
        prop = 100 if via == "run" else rng.choice([100, 100, 50, 0])
    elif flow == "tags":
        a = rng.randint(1, T - 1)
        tags = list(range(a, min(T, a + 5) + 1))
        if via == "call" and rng.random() < .5:
            tags = rng.sample(range(1, T + 1), rng.randint(2, min(T, 6)))
        prop = rng.choice([100, 100, 50, 75])
        for i in keeps:                          # every fold has something to check
            words[i][tags[0] - 1] = words[i][tags[0] - 1] or 1 + i % 4
    name = rng.choice(NAMES)
    lda = name in ("lro/vb", "sim/lda/vb", "mtm2/vb") and flow in ("linkprec", "insample", "outsample") and rng.random() < .7
    undirected = flow in ("linkmap", "linkprec", "insample", "outsample") and rng.random() < .4
    opts = dict(P=rng.randint(1, 5), Q=rng.randint(1, 5), iters=rng.randint(5, 50), qiters=rng.randint(51, 90), mdt=rng.choice(["f4", "f8"]),
                prior=rng.randint(101, 300), fv=rng.randint(1, 90), tv=rng.randint(1, 90), ltv=rng.randint(1, 90), lfv=rng.randint(1, 90),
                batch=rng.choice([0, 1, 4, 9]), delay=rng.randint(1, 99), forget=rng.randint(51, 99), misfit=False)
    if lda and via == "run":
        opts["misfit"] = rng.random() < .3
    cmd = rng.choice(CMDS)
    dtype = rng.choice(["f4", "f8"] if ranked or flow == "hashtags" or F else ["f4", "f8", "i4"])
    return dict(flow=flow, via=via, evalname=EVALS[flow], words=words, feats=feats, links=lm, nfolds=n, stop=stop, fails=list(fails), save=rng.random() < .7,
                name=name, K=K, P=rng.choice([None, 2, 3]), undirected=undirected, lda=lda, tags=tags, prop=prop, mask=mask, dtype=dtype, vocab=vocab,
                dict=dic, cmd=cmd, limit=limit, opts=opts, seed=rng.randrange(2 ** 31), layout=rng.choice(["plain", "plain", "reversed", "zeros"]) if via == "call" and not lm and False else "plain")


def pieces(rng):
    T, D = rng.randint(2, 8), rng.randint(1, 7)
    words = [[rng.randint(1, 9) if rng.random() < .5 else 0 for _ in range(T)] for _ in range(D)]
    dic = [rng.choice("#w") + "tag%d" % t for t in range(T)]
    if not any(w[0] == "#" for w in dic):
        dic[rng.randrange(T)] = "#it"
    cols = lambda lo=1: rng.sample(range(1, T + 1), rng.randint(lo, T))
    calls = []
    for _ in range(3):
        calls.append(dict(op="popular", cols=cols(), count=rng.randint(1, T + 1), dt=rng.choice(["float64", "int32"])))
        calls.append(dict(op="split", cols=cols(0), percent=rng.choice([0, 30, 50, 70, 100]), seed=rng.randrange(10 ** 6), dt=rng.choice(["float64", "float32", "int32"])))
        calls.append(dict(op="file", name=rng.choice(NAMES), K=rng.randint(2, 300), P=rng.choice([-1, 0, 7]), fold=rng.choice([-1, 0, 3, 12])))
    calls.append(dict(op="hashtags", count=rng.randint(1, T)))
    calls.append(dict(op="clip", lo=0, hi=rng.randint(1, 9)))
    G = [[0, 3], [3, 5], [-1, -1]][:rng.randint(1, 3)]
    calls.append(dict(op="combine", groups=G, parts=[dict(avgs=[[rng.randint(0, 20) for _ in range(3)] for _ in G], counts=[rng.choice([0, 1, 5, 12]) for _ in G])
                                                     for _ in range(rng.randint(1, 4))]))
    calls.append(dict(op="dtypes", given=rng.choice(["f4", "F8", "i4", "u2", "f32:f64", "f4:f8", "f8:f4", "i4:f8", "u16:F32", "I32 : f8", "f4 : i4", "x", "f8:q"])))
    calls.append(dict(op="mask", given=rng.choice(["", "a:0", "a:3,b:0", "x y:2,z:14,q:1"])))
    order = rng.sample(range(9), rng.randint(1, 9))
    calls.append(dict(op="adapt", order=order, saved=rng.choice([order, order, order[::-1], order[:-1] + [order[-1] + 20], order + [50]])))
    return dict(words=words, dict=dic, calls=calls, layout=rng.choice(["plain", "reversed", "zeros"]))


REAL = [(c, "perplexity") for c in ("ctm_bouchard", "ctm_bohning", "stm_yv_bouchard", "stm_yv_bohning", "lda_cvb", "lda_cvb0", "lda_vb", "lda_svb", "lda_gibbs",
                                    "sim_lda_vb", "mom_em", "mom_gibbs", "dmr", "lro_vb")] + \
       [(c, "tag_prec_at_m") for c in ("ctm_bouchard", "ctm_bohning", "stm_yv_bouchard", "stm_yv_bohning")] + \
       [(c, e) for c in ("sim_lda_vb", "sim_tfidf", "lro_vb") for e in ("meanavgprec_all", "meanprecrec_all", "lro_meanprecrec_all")]


def real(rng, cmd, ev):
    D, T = rng.randint(12, 18), rng.randint(8, 12)
    W, X = corpus(rng, D, T, 3, .8, 5, 4)
    for d in range(D):
        X[d] = [rng.randint(0, 1) for _ in range(3)]
    feats = cmd in ("dmr", "stm_yv_bouchard", "stm_yv_bohning")
    return dict(words=W, dict=["#a"], W=W, X=X if feats else [], L=links(rng, D, 5, 8), layout="plain",
                calls=[dict(op="real", cmd=cmd, eval=ev, K=3, n=rng.randint(2, 3), dts="u2:f8" if cmd == "dmr" else "f8:f8")])
