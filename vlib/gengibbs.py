"""Runs of Gibbs samplers"""
from vlib import genlife


def priors(rng, K, T, s):
    s["alpha"] = rng.choice([.1, .5, 1.0, 2.5, [rng.choice([.1, .3, .5, 1.0, 2.0]) for _ in range(K)]])
    s["beta"] = rng.choice([.05, .1, .5, 1.0, [rng.choice([.1, .3, .5, 1.0]) for _ in range(T)]])


def plan(rng, h=None):
    if h:
        return dict(iterations=h["iterations"], burn=h["burn"], thin=h["thin"])
    return dict(iterations=rng.choice([1, 2, 3, 5, 7, 9, 12, 20]), burn=rng.choice([-1, -1, 0, 1, 2, 5, 11]), thin=rng.choice([-1, -1, 1, 2, 3, 5, 7, 50]))


def corpus(rng, T, D=None):
    D = D or rng.randint(1, 4)
    w = genlife.words(rng, D, T, 3)
    if rng.random() < .15 and D > 1:
        w[rng.randrange(D)] = [0] * T
    return w


def scenario(rng, h=None, log=False):
    u = rng.random()
    wide = u < .06
    n = rng.choice([2, 3, 4, 5])
    T = rng.choice([300, 33000, 65000]) if wide else n
    s = dict(K=rng.choice([2, 3, 130, 200]) if wide else rng.choice([2, 2, 3, 4]), T=T, seed=rng.randrange(1000))
    s["cols"] = list(range(n))
    if wide:
        c = {0, T - 1}
        while len(c) < n:
            c.add(rng.choice([1, 127, 128, 255, 256, T // 2, 32767, 32768, T - 2]) % T)
        s["cols"] = sorted(c)
    priors(rng, s["K"], T, s)
    if wide:
        s["beta"] = .001 if T > 1000 else .01
        s["alpha"] = .5
    small = s["K"] <= 4
    p = plan(rng, h)
    if not small:
        p["iterations"], p["burn"] = min(3, p["iterations"]), min(2, p["burn"])
    ops = [dict(op="train", words=corpus(rng, n), all=small, **p)]
    for _ in range(rng.randint(0, 2)):
        p = plan(rng)
        if not small:
            p["iterations"] = min(3, p["iterations"])
        ops.append(dict(op=rng.choice(["query", "query", "train"]), words=corpus(rng, n), all=small, **p))
    for o in ops:
        o.update(dtype=rng.choice(["int32", "float64", "float32"] + ["int64"]), cseed=rng.randrange(10 ** 6), log=rng.choice([0, 1, 100]))
    s["ops"] = ops
    return s


SMALL = [[[2, 1], [1, 0]], [[1, 1], [0, 2]], [[3, 1]], [[1, 0], [1, 1], [0, 1]], [[2, 0, 1], [1, 1, 0]], [[0, 1], [2, 1], [1, 0]]]


def often(rng, sweeps, held=False, rare=False):
    w = rng.choice(SMALL)
    n = len(w[0])
    K = 2 if sum(map(sum, w)) > 4 else rng.choice([2, 2, 3])
    s = dict(K=K, T=n, seed=rng.randrange(1000), cols=list(range(n)))
    s["alpha"] = [rng.choice([.4, .5, 1.0, 2.0]) for _ in range(K)]
    s["beta"] = [rng.choice([.4, .5, 1.0, 1.5]) for _ in range(n)]
    common = dict(words=w, dtype="int32", cseed=rng.randrange(10 ** 6), log=0)
    s["ops"] = []
    if held:
        t = rng.choice([x for x in SMALL if len(x[0]) == n])
        if rare:                    # all words but one are rare in every topic
            j = rng.randrange(n)
            t = [[v * (rng.randint(300, 900) if i == j else 1) for i, v in enumerate(r)] for r in t]
            s["beta"] = [rng.choice([.4, .5, 1.0, 1.5]) for _ in range(n)]
        s["ops"].append(dict(common, op="learn" if rare else "train", all=True, iterations=4, burn=1, thin=1, words=t))
    s["ops"].append(dict(common, op="often", held=held, sweeps=sweeps, slow=3))
    return s
