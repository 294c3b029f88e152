"""Random corpora and histories for the replays (all randomness comes from the rng given)"""
import json

DT = ["float64", "float32", "int32", "int64"]


def uniq(scs):
    seen, out = set(), []
    for s in scs:
        k = json.dumps(s, sort_keys=True)
        if k not in seen:
            seen.add(k); out.append(s)
    return out


def corpus(rng, D, W=None, feats=None, links=None, cats=None, dic=None, density=0.5, maxcount=9, nfeat=None, ncols=None,
           empty_ok=False, all_links=None):
    W = W or rng.randint(2, 6)
    words = [[rng.randint(1, maxcount) if rng.random() < density else 0 for _ in range(W)] for _ in range(D)]
    if not empty_ok:
        for r in words:
            if not any(r):
                r[rng.randrange(W)] = rng.randint(1, maxcount)
    feats = rng.random() < .5 if feats is None else feats
    links = rng.random() < .6 if links is None else links
    cats = rng.random() < .5 if cats is None else cats
    dic = rng.random() < .5 if dic is None else dic
    F = nfeat or rng.randint(1, 4)
    fm = []
    if feats:
        fm = [[rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(F)] for _ in range(D)]
        style = rng.randrange(4)
        if style == 0:                      # an intercept is there already
            j = rng.randrange(F)
            for r in fm:
                r[j] = 1
        elif style == 1 and F > 0:          # one on average, but no intercept
            j = rng.randrange(F)
            for i, r in enumerate(fm):
                r[j] = 0 if i % 2 else 2
    lm = []
    if links:
        nc = ncols or rng.choice([D, D, D + 1 + rng.randint(0, 3)])
        p = rng.choice([.2, .5, .8])
        lm = [[rng.randint(1, 3) if rng.random() < p else 0 for _ in range(nc)] for _ in range(D)]
        if rng.random() < .3 and nc == D:
            for i in range(D):
                for j in range(i):
                    lm[i][j] = lm[j][i]
    return dict(words=words, feats=fm, links=lm, cats=[rng.randint(0, 99) for _ in range(D)] if cats else [],
                dict=list(range(W)) if dic else [])


def forms(rng):
    return dict(wtype=rng.choice(DT), fform=rng.choice(["csr", "csr", "dense"]), ftype=rng.choice(DT + ["float64"] * 3),
                ltype=rng.choice(DT), cform=rng.choice(["list", "array"]), dform=rng.choice(["list", "array"]),
                unsorted=rng.random() < .15)


def construct(rng, D, plain=False):
    op = dict(op="construct", hasOrder=False, order=[], limit=0, debug=rng.random() < .3)
    if not plain and rng.random() < .5:
        op["hasOrder"] = True
        op["order"] = rng.sample(range(100), D)
    return op
