"""Runs of Dirichlet-multinomial regression"""
from vlib import genlife


def feats(rng, D, F, kind):
    if kind == "binary":
        return [[rng.randint(0, 1) for _ in range(F)] for _ in range(D)]
    if kind == "intercept":
        return [[1] + [rng.choice([0, 1, 2]) for _ in range(F - 1)] for _ in range(D)]
    return [[rng.choice([-1.5, -.5, 0, .25, 1, 2]) for _ in range(F)] for _ in range(D)]


def weights(rng, K, F):
    return [[rng.choice([-.6, -.25, -.1, 0, .05, .1, .3, .7]) for _ in range(F)] for _ in range(K)]


def plan(rng, h=None):
    if h:
        return dict(iterations=h["iterations"], burn=h["burn"], thin=h["thin"], update=h["update"])
    it = rng.choice([1, 2, 3, 4, 6, 8, 11, 14])
    p = dict(iterations=it, burn=rng.choice([-1, -1] + [b for b in (0, 1, 2, 4) if b < it]), thin=rng.choice([-1, 1, 1, 2, 3]), update=-1)
    if rng.random() < .6:
        p["update"] = max(1, p["thin"], min(it, rng.choice([2, 3, 4, 6])))
        if p["thin"] < 0:
            p["update"] = max(5, p["update"])
    return p


def corpus(rng, T, F, D=None):
    D = D or rng.randint(1, 5)
    w = genlife.words(rng, D, T, 3)
    if rng.random() < .15 and D > 1:
        w[rng.randrange(D)] = [0] * T
    x = feats(rng, D, F, rng.choice(["binary", "intercept", "real"]))
    return dict(words=w, feats=x, sparse=rng.random() < .5)


def scenario(rng, h=None, wide=False):
    T, F = rng.randint(2, 4), rng.choice([1, 1, 2, 2, 3])
    K = rng.choice([2, 2, 3, 4])
    s = dict(K=K, T=T, seed=rng.randrange(1000), beta=rng.choice([.1, .5, 1.0, [rng.choice([.1, .3, .5, 1.0]) for _ in range(T)]]))
    D = rng.randint(6, 12) if wide else None
    ops = [dict(op="train", weights=weights(rng, K, F) if rng.random() < .6 else [], **corpus(rng, T, F, D), **plan(rng, h))]
    if rng.random() < .7:
        ops.append(dict(op="query", **corpus(rng, T, F), **dict(plan(rng), update=-1)))
    for o in ops:
        o.update(big=False, debug=rng.random() < .15)
    s["ops"] = ops
    return s


def large(rng, D):
    """More documents than are weighed at a time"""
    w = [[1, 0] if rng.random() < .5 else [0, 1] for _ in range(D)]
    x = [[1 if r[0] else 0] for r in w]
    x[-1] = [1]
    n = rng.choice([1, 2])
    return dict(K=2, T=2, seed=rng.randrange(1000), beta=.1, ops=[dict(
        op="train", weights=[], words=w, feats=x, sparse=rng.random() < .5, iterations=n + 1, burn=1, thin=n, update=n, big=True, debug=False)])


SMALL = [[[2, 1], [1, 0]], [[1, 1], [0, 2]], [[1, 0], [1, 1], [0, 1]], [[0, 1], [2, 1], [1, 0]], [[1, 0], [0, 1], [1, 0], [0, 1]], [[2, 0, 1], [0, 1, 0]]]


def often(rng, sweeps, held=False):
    w = rng.choice(SMALL)
    T, F = len(w[0]), rng.choice([1, 2])
    K = 2 if sum(map(sum, w)) > 3 else rng.choice([2, 3])
    s = dict(K=K, T=T, seed=rng.randrange(1000), beta=[rng.choice([.4, .5, 1.0, 1.5]) for _ in range(T)])
    op = dict(op="query" if held else "train", words=w, weights=weights(rng, K, F), feats=feats(rng, len(w), F, "intercept"), sparse=rng.random() < .5,
              often=sweeps, slow=4, big=False, debug=False)
    s["ops"] = [op]
    if held:
        v = rng.choice([x for x in SMALL if len(x[0]) == T])
        s["ops"].insert(0, dict(op="train", words=v, weights=op["weights"], feats=feats(rng, len(v), F, "intercept"), sparse=True,
                                iterations=4, burn=1, thin=1, update=2, big=False, debug=False))
    return s
