"""Correlated topic models"""
from vlib import genlife


KINDS = ["CTM", "CTM_BOHNING", "CTM_GRAD", "STM", "STM_BOHNING", "STM_UV"]

PLAIN = ["STM_BOHNING", "STM_UV"]


def perm(rng, n, move=True):
    p = list(range(1, n + 1))
    if move:
        rng.shuffle(p)
    return p


def feats(rng, D, F):
    real = rng.random() < .4
    x = [[rng.choice([-1.5, -.5, 0, .25, 1, 2]) if real else rng.randint(0, 1) for _ in range(F)] for _ in range(D)]
    return x


def corpus(rng, kind, D, T, F, asked=False):
    if kind in PLAIN and not asked:
        x = feats(rng, D, F)
        return dict(words=[[rng.randint(1, 3) for _ in range(T)] for _ in range(D)], feats=[[v or 1 for v in r] if not any(r) else r for r in x])
    w = genlife.words(rng, D, T, 3)
    if rng.random() < (.4 if asked else .15) and D > 1:
        w[rng.randrange(D)] = [0] * T
    if not any(map(any, w)):
        w[0][0] = 1
    return dict(words=w, feats=feats(rng, D, F) if kind.startswith("STM") else [])


def scenario(rng, kind, runs=()):
    T, K, D = rng.randint(2, 4), rng.choice([2, 2, 3, 4]), rng.choice([1, 2, 3, 3, 4, 5])
    if kind in ("CTM_GRAD", "CTM_BOHNING"):
        D = max(D, 2)             # they take the covariance of documents
    F = rng.randint(1, 3)
    if kind in PLAIN:             # they invert it as it stands
        D, F = rng.choice([4, 5, 6, 7]), rng.randint(1, 2)
    s = dict(kind=kind, K=K, P=rng.randint(1, 2), seed=rng.randrange(10 ** 6), prior=rng.choice([.01, .1, .5, 1.1]),
             fv=rng.choice([.1, .5, 1.0]), lfv=rng.choice([.1, .5, 1.0]), sparse=rng.random() < .5, diag=rng.random() < .4,
             precision="f4" if rng.random() < .15 and kind not in ("STM_BOHNING", "STM_UV") else "f8", steps=rng.randint(2, 5), **corpus(rng, kind, D, T, F))
    s["tol"] = 500 if s["precision"] == "f8" else 300000
    ops = []
    for n, f in runs:
        ops.append(dict(op="run", n=n, f=f, debug=rng.random() < .25))
        s["steps"] = max(s["steps"], n)
    ops.append(dict(op="again"))
    if kind != "STM_BOHNING":
        i = rng.randint(1, s["steps"] - 1)
        ops.append(dict(op="resume", n=i, then=s["steps"] - i))
    ops.append(dict(op="rearranged", n=min(s["steps"], rng.randint(1, 4)), docs=perm(rng, D), vocab=perm(rng, T), topics=perm(rng, K, kind != "CTM")))
    ops.append(dict(op="copy"))
    for _ in range(2):
        n = rng.choice([1, 2, 3, 5, 11, 20])
        j = rng.randint(1, n)
        ops.append(dict(op="query", n=n, parts=[j] + ([n - j] if n > j else []), debug=rng.random() < .2, **corpus(rng, kind, rng.randint(1, 4), T, F, asked=True)))
    rng.shuffle(ops)
    s["ops"] = ops
    return s


def far(rng, kind):
    """Training for so long that it may be given up"""
    s = scenario(rng, kind)
    if kind in PLAIN:
        return s
    n = dict(CTM=45, STM=66, CTM_BOHNING=118, CTM_GRAD=118).get(kind, 33) + rng.randint(0, 6)
    s.update(precision="f8", tol=5000, steps=n, ops=[dict(op="run", n=rng.randint(n - 5, n), f=f, debug=False) for f in (1, rng.randint(2, 5), rng.randint(5, 12))])
    return s
