"""Histories of estimator calls"""
KINDS = ["LDA_CVB0", "LDA_CVB", "LDA_VB_PYTHON_IMPL", "LDA_GIBBS", "MOM_VB", "MOM_GIBBS"]
DTS = ["int32", "float32", "float64"]


def words(rng, D, T, maxcount=4):
    p = rng.choice([.4, .7, 1])
    w = [[rng.randint(1, maxcount) if rng.random() < p else 0 for _ in range(T)] for _ in range(D)]
    for r in w:
        if sum(1 for v in r if v) < 1:
            r[rng.randrange(T)] = rng.randint(1, maxcount)
    return w


def cfg(rng, kind, T, cid, rich=True):
    c = dict(id=cid, kind=kind, K=rng.choice([2, 2, 3, 3, 4]), iters=rng.randint(1, 6), qiters=rng.randint(1, 5))
    K = c["K"]
    if rich:
        a = rng.random()
        if a < .35:
            c["alpha"] = rng.choice([.1, .5, 1.0, 2.5])
        elif a < .6:
            c["alpha"] = [rng.choice([.1, .3, .5, 1.0, 2.0]) for _ in range(K)]
        a = rng.random()
        if a < .35:
            c["beta"] = rng.choice([.01, .1, .5, 1.0])
        elif a < .6 and kind in ("LDA_VB_PYTHON_IMPL", "LDA_GIBBS", "MOM_VB", "MOM_GIBBS"):
            c["beta"] = [rng.choice([.1, .3, .5, 1.0]) for _ in range(T)]
        if kind == "LDA_GIBBS" and rng.random() < .4:
            c["thin"] = rng.randint(1, 3); c["burn_in"] = rng.randint(1, 3)
        if kind == "LDA_VB_PYTHON_IMPL" and rng.random() < .4:
            c["batch"] = rng.randint(1, 3)
    return c


def shape(rng, c):
    """How a corpus is stored, and what else it holds, which are of no consequence"""
    if c["form"] != "dense" and rng.random() < .35:
        c["layout"] = rng.choice(["unsorted", "unsorted", "zeros"])
    if c["form"] == "dataset" and rng.random() < .3:
        c["extras"] = rng.choice(["links", "all"])
    return c


def corpora(rng, n=3, T=None, empties=.1, bare=.35):
    T = T or rng.randint(2, 5)
    out = []
    for i in range(n):
        D = rng.choice([1, 2, 3, 4, 5])
        c = dict(id=i + 1, words=words(rng, D, T), dtype=rng.choice(DTS))
        c["form"] = rng.choice(["matrix", "dense"]) if rng.random() < bare else "dataset"
        shape(rng, c)
        if rng.random() < empties:
            c["words"][rng.randrange(D)] = [0] * T
            if not any(any(r) for r in c["words"]):
                c["words"] = [[0] * T, [1] * T]
        out.append(c)
    return out


def call(rng, h, nx, results, kind, allowscore=True):
    """One random call; results: for each earlier call, the corpus its mixtures are of (0: none), with its K"""
    k = rng.choices(["fit", "transform", "fit_transform", "score"], [4, 6, 2, 4 if allowscore else 0])[0]
    op = dict(op=k, h=h, x=rng.randint(1, nx))
    if k in ("fit", "transform", "fit_transform"):
        op["persist"] = rng.random() < .6
        op["resume"] = rng.random() < (.45 if k != "fit_transform" else .15)
        op["explicit"] = rng.random() < .5
        op["iters"] = rng.choice([0, 0, 1, 2, 3, 7])
    else:
        op["how"] = rng.choices(["none", "y", "qs", "both"], [5, 4, 0, .5])[0]
        op["method"] = rng.choices(["ll", "perp", "dcll", "dcperp", "ell", "eperp"], [4, 3, 2, 2, 1, 1])[0]
        op["text"] = rng.random() < .3
    return op


def history(rng, kinds, n, ncfg=2, nh=2, allcorpora=None, reuse=.75):
    """A random history; reuse is the chance that a call is on the corpus that was last used by that handle"""
    xs = allcorpora or corpora(rng)
    T = len(xs[0]["words"][0])
    cfgs = [cfg(rng, rng.choice(kinds), T, i + 1) for i in range(ncfg)]
    ops, results, last, kept, hcfg = [], [], {}, {}, {}
    live = []
    for h in range(1, nh + 1):
        c = rng.randrange(ncfg)
        ops.append(dict(op="new", h=h, cfg=c + 1, seed=rng.choice([0, 1, 5, 0xC0FFEE])))
        hcfg[h] = c; live.append(h)
    trained = set()
    for _ in range(n):
        h = rng.choice(live)
        u = rng.random()
        if u < .04:
            ops.append(dict(op="reseed", h=h, seed=rng.choice([0, 1, 5])))
            continue
        if u < .08:
            h2 = rng.choice([i for i in range(1, nh + 2)])
            if h2 != h:
                ops.append(dict(op="copy", h=h, h2=h2)); hcfg[h2] = hcfg[h]
                if h2 not in live:
                    live.append(h2)
                (trained.add if h in trained else trained.discard)(h2)
                kept[h2] = kept.get(h); last[h2] = last.get(h)
                continue
        kind = cfgs[hcfg[h]]["kind"]
        op = call(rng, h, len(xs), results, kind)
        if h in last and last[h] and rng.random() < reuse:
            op["x"] = last[h]
        if h not in trained and rng.random() < .7:
            op = dict(op=rng.choice(["fit", "fit", "fit_transform"]), h=h, x=op["x"], persist=rng.random() < .7, resume=rng.random() < .05,
                      iters=rng.choice([0, 1, 2]))
        op = score_args(rng, op, results, cfgs[hcfg[h]], kept.get(h), xs, h in trained)
        note(op, results, cfgs[hcfg[h]], kept, last, xs, trained)
        ops.append(op)
    return dict(corpora=xs, cfgs=cfgs, ops=ops)


def score_args(rng, op, results, c, kept, xs, trained):
    if op["op"] != "score":
        return op
    if op["method"] in ("ell", "eperp") and c["kind"] != "LDA_CVB0" and op["how"] not in ("y", "both"):
        op["method"] = "ll"
    if op["how"] != "both" and kept and rng.random() < .35:
        op["how"], op["x"] = "qs", abs(kept)
        if op["method"] in ("ell", "eperp") and c["kind"] != "LDA_CVB0":
            op["method"] = "ll"
    if op["how"] in ("y", "both"):
        D = len(xs[op["x"] - 1]["words"])
        fits = [i + 1 for i, r in enumerate(results) if r and r == (D, c["K"])]
        if not fits or (op["how"] == "both" and not kept):
            op["how"] = "none"
            if op["method"] in ("ell", "eperp") and c["kind"] != "LDA_CVB0":
                op["method"] = "ll"
        else:
            op["ref"] = rng.choice(fits)
    return op


def note(op, results, c, kept, last, xs, trained):
    """Roughly what the call will do (only used to choose sensible calls)"""
    k, h = op["op"], op["h"]
    x = xs[op["x"] - 1]
    bare, empty = x["form"] != "dataset", any(not any(r) for r in x["words"])
    ok = True
    if op.get("resume") and (bare or kept.get(h) != op["x"]):
        ok = False
    if empty:
        ok = False
    if k in ("transform", "score") and h not in trained:
        ok = False
    results.append((len(x["words"]), c["K"]) if k in ("transform", "fit_transform") and ok else None)
    if ok:
        if k in ("fit", "fit_transform"):
            trained.add(h)
        if k == "score" and op["how"] == "none" and op["method"] in ("ll", "perp", "dcll", "dcperp"):
            kept[h] = None
        if k in ("fit", "transform", "fit_transform"):
            kept[h] = (-op["x"] if bare else op["x"]) if op.get("persist") else None
        last[h] = op["x"]


def twins(rng, kind, n, noise=True):
    """The same calls by two estimators with the same settings and seed, on equal corpora, with others trained in between"""
    xs = corpora(rng, 2, bare=.2, empties=0)
    m = len(xs)
    xs = xs + [dict(c) for c in xs]                      # equal, but other objects
    T = len(xs[0]["words"][0])
    cfgs = [cfg(rng, kind, T, 1), cfg(rng, rng.choice(KINDS), T, 2), cfg(rng, "LDA_GIBBS", T, 3)]
    seed = rng.choice([0, 1, 99, 0xC0FFEE])
    calls, results, kept, last, trained = [], [], {}, {}, set()
    for i in range(n):
        op = call(rng, 1, m, results, kind)
        if i == 0:
            op = dict(op=rng.choice(["fit", "fit_transform"]), h=1, x=op["x"], persist=rng.random() < .8, resume=False, iters=rng.choice([0, 1, 3]))
        elif last.get(1) and rng.random() < .7:
            op["x"] = last[1]
        op = score_args(rng, op, results, cfgs[0], kept.get(1), xs, 1 in trained)
        note(op, results, cfgs[0], kept, last, xs, trained)
        calls.append(op)
    ops = [dict(op="new", h=1, cfg=1, seed=seed)] + calls
    res = len(calls)
    if noise:
        for h, c in ((3, 2), (4, 3)):
            if rng.random() < .7:
                ops.append(dict(op="new", h=h, cfg=c, seed=rng.randint(0, 9)))
                ops.append(dict(op="fit", h=h, x=rng.randint(1, m), persist=True, resume=False, iters=rng.randint(1, 3)))
                res += 1
                if rng.random() < .6:
                    ops.append(dict(op="transform", h=h, x=rng.randint(1, m), persist=False, resume=False, iters=1))
                    res += 1
    ops.append(dict(op="new", h=2, cfg=1, seed=seed))
    swap = rng.random() < .5
    for op in calls:
        o = dict(op, h=2)
        if swap:
            o["x"] = op["x"] + m
        if o.get("ref"):
            o["ref"] = op["ref"] + res
        ops.append(o)
    return dict(corpora=xs, cfgs=cfgs, ops=ops)
