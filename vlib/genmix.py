"""Runs of mixtures of multinomials"""
from vlib import genlife


def priors(rng, s):
    K, T = s["K"], s["T"]
    s["alpha"] = rng.choice([.1, .5, 1.0, 2.5, [rng.choice([.1, .3, .5, 1.0, 2.0, 7.0]) for _ in range(K)]])
    s["beta"] = rng.choice([.01, .1, .5, 1.0, 1.1, [rng.choice([.1, .3, .5, 1.0, 3.0]) for _ in range(T)]])


def corpus(rng, T, big=False):
    D = rng.choice([1, 2, 3, 4, 6, 9])
    w = genlife.words(rng, D, T, 30 if big else 3)
    if rng.random() < .1:
        w[-1] = list(w[0])
    return w


def common(rng):
    return dict(dtype=rng.choice(["int32", "float64", "float32", "int64"]), log=rng.choice([0, 1, 2, 100]), draws=rng.randrange(10 ** 6))


def em(rng):
    s = dict(model="em", K=rng.choice([2, 2, 3, 4, 6]), T=rng.choice([2, 3, 4, 6]), seed=rng.randrange(10 ** 6))
    priors(rng, s)
    big = rng.random() < .15
    ops = [dict(common(rng), op="learn", words=corpus(rng, s["T"], big), iterations=rng.choice([1, 2, 3, 4, 6, 9, 14]))]
    for _ in range(rng.randint(0, 2)):
        k = rng.choice(["ask", "ask", "learn"])
        ops.append(dict(common(rng), op=k, words=corpus(rng, s["T"], big), iterations=rng.choice([1, 2, 3, 5]), further=rng.random() < .5))
    s["ops"] = ops
    return s


def plan(rng, h=None):
    return dict(h) if h else dict(iterations=rng.choice([1, 2, 3, 5, 7, 9, 12, 20, 40]), burn=rng.choice([-1, -1, 0, 1, 2, 5, 11]), thin=rng.choice([-1, -1, 1, 2, 3, 5, 7, 50]))


def gibbs(rng, h=None):
    s = dict(model="gibbs", K=rng.choice([2, 2, 3, 4]), T=rng.choice([2, 3, 4]), seed=rng.randrange(10 ** 6))
    priors(rng, s)
    ops = [dict(common(rng), op="sample", words=corpus(rng, s["T"]), **plan(rng))]
    for i in range(rng.randint(1, 2)):
        k = "query" if h and i == 0 else rng.choice(["query", "query", "sample"])
        ops.append(dict(common(rng), op=k, words=corpus(rng, s["T"]), further=rng.random() < .5, **plan(rng, h if i == 0 else None)))
    s["ops"] = ops
    return s


SMALL = [[[2, 1], [1, 0]], [[1, 1], [0, 2], [3, 1]], [[3, 1]], [[1, 0], [1, 1], [0, 1], [0, 2]], [[2, 0, 1], [1, 1, 0]], [[0, 1], [2, 1], [1, 0]]]


def often(rng, sweeps, held=False):
    w = rng.choice(SMALL)
    s = dict(model="gibbs", K=2 if len(w) > 3 else rng.choice([2, 2, 3]), T=len(w[0]), seed=rng.randrange(10 ** 6))
    s["alpha"] = [rng.choice([.4, .5, 1.0, 2.0]) for _ in range(s["K"])]
    s["beta"] = [rng.choice([.4, .5, 1.0, 1.5]) for _ in range(s["T"])]
    ops = []
    if held:
        ops.append(dict(common(rng), op="sample", words=rng.choice([x for x in SMALL if len(x[0]) == s["T"]]), iterations=2, burn=1, thin=1))
    ops.append(dict(common(rng), op="often", words=w, held=held, sweeps=sweeps, slow=6, dtype=rng.choice(["int32", "float64"]), further=False))
    if not held:
        ops.append(dict(common(rng), op="topics", words=w, z=[rng.randint(1, s["K"]) for _ in w], sweeps=sweeps))
    if held:
        ops.append(dict(common(rng), op="sweep", words=w, held=True, z=[rng.randint(1, s["K"]) for _ in w], sweeps=sweeps))
    s["ops"] = ops
    return s
