"""Runs of variational LDA"""
from vlib import genlife


def corpus(rng, T, D=None):
    D = D or rng.choice([1, 2, 3, 4, 6])
    return genlife.words(rng, D, T, rng.choice([1, 3, 3, 6]))


def plan(rng, size):
    return dict(size=size, delay=rng.choice([60, 60, 100, 150, 1000]), forget=rng.choice([60, 60, 51, 75, 100]))


def scenario(rng, h=None):
    s = dict(K=rng.choice([2, 2, 3, 4]), T=rng.choice([2, 3, 4, 5]), seed=rng.randrange(10 ** 6))
    K, T = s["K"], s["T"]
    small = h["size"] > 0 if h else rng.random() < .4
    s["alpha"] = rng.choice([.3, .5, 1.0, 2.5, [rng.choice([.3, .5, 1.0, 2.0]) for _ in range(K)]] + ([] if small else [.1]))
    s["beta"] = rng.choice([.5, 1.0, 1.1, [rng.choice([.3, .5, 1.0, 3.0]) for _ in range(T)]] + ([] if small else [.1, .05]))
    ops = []
    for i in range(rng.randint(1, 3)):
        k = "learn" if i == 0 else rng.choice(["ask", "ask", "learn"])
        size = (h["size"] if h and i == 0 else rng.randint(1, 4)) if small else 0
        w = corpus(rng, T, h["D"] if h and i == 0 else None)
        it = rng.choice([1, 2, 3]) if small else rng.choice([1, 2, 4, 6])
        ops.append(dict(op=k, words=w, plan=plan(rng, size), iterations=it, further=rng.random() < .5,
                        dtype=rng.choice(["int32", "float64", "float32", "int64"]), log=rng.choice([0, 1, 100])))
    s["ops"] = ops
    return s
