"""Calls of the collapsed variational modules"""
from vlib import genlife


def setting(rng, T, tokens, D=None, n=3):
    corpora = [dict(words=genlife.words(rng, D or rng.randint(1, 5), T, rng.choice([1, 2, 4])), dtype=rng.choice(genlife.DTS)) for _ in range(n)]
    return corpora


def base(rng, kind):
    T = rng.choice([2, 3, 4, 5, 6])
    K = rng.choice([2, 2, 3, 4])
    s = dict(kind=kind, K=K, dtype=rng.choice(["f4", "f8"]), seed=rng.randrange(1000), corpora=setting(rng, T, 0))
    low = .1 if kind == "LDA_CVB" else .02
    s["alpha"] = rng.choice([low, .1, .3, .5, 1.0, 2.0, 25.0])
    s["beta"] = rng.choice([low, .1, .25, .6, 1.0, 3.0])
    if rng.random() < .12:
        s["alpha"] = [rng.choice([.1, .5, 1.0, 2.0]) for _ in range(K)]
    return s


def call(rng, s, op, m, m2, q):
    it = rng.choices([0, 1, 2, 3, 7, 20], [1, 8, 2, 2, 1, .7])[0]
    return dict(op=op, m=m, m2=m2, q=q, q2=q, iters=it, log=rng.choice([0, 1, 2, 10, 100]))


def wide(rng, kind):
    """Many words, most of them never used, or long documents"""
    s = base(rng, kind)
    T = rng.choice([140, 300])
    s["K"], s["alpha"], s["beta"] = rng.choice([2, 3]), .5, min(s["beta"], .5)
    for c in s["corpora"]:
        D = rng.randint(1, 2)
        c["words"] = [[0] * T for _ in range(D)]
        for d in range(D):
            for _ in range(3):
                c["words"][d][rng.choice([0, 1, 126, 127, 128, 130, T - 1])] += rng.randint(1, 3)
    return s


def lengthy(rng, kind):
    s = base(rng, kind)
    s["K"], s["alpha"] = 2, rng.choice([.1, .5, 1.0])
    D = rng.randint(1, 2)
    T = len(s["corpora"][0]["words"][0])
    for c in s["corpora"]:
        c["words"] = [[0] * T for _ in range(D)]
        for r in c["words"]:
            r[0], r[-1] = rng.randint(1, 30), rng.randint(1, 20)
    return s


def scenario(rng, kind, calls=None):
    u = rng.random()
    s = wide(rng, kind) if u < .05 else lengthy(rng, kind) if u < .12 else base(rng, kind)
    if rng.random() < .06:
        c = rng.choice(s["corpora"])
        c["words"].insert(rng.randrange(len(c["words"]) + 1), [0] * len(c["words"][0]))
    ops = [dict(op="new", m2=1, x=1)]
    if calls is not None:                    # a history of the model
        at = {}
        for c in calls:
            if not c["again"] or c["x"] not in at:
                ops.append(dict(op="state", m=1, q=c["x"], x=c["x"])); at[c["x"]] = 1
            ops.append(call(rng, s, c["op"], 1, 1, c["x"]))
    else:
        m, nm, trained, xs = 1, 1, False, {}
        for _ in range(rng.randint(2, 5)):
            if nm < 6 and rng.random() < .2:
                nm += 1
                ops.append(dict(op="copy", m=m, m2=nm))
                if rng.random() < .5:
                    m = nm
            x = rng.randint(1, len(s["corpora"]))
            if xs and rng.random() < .35:
                q = rng.choice(list(xs))
            else:
                q = rng.randint(1, 4)
                ops.append(dict(op="state", m=m, q=q, x=x)); xs[q] = x
            op = "train" if not trained or rng.random() < .4 else "query"
            trained = True
            empty = any(not any(r) for r in s["corpora"][xs[q] - 1]["words"])
            m2 = m
            if rng.random() < .3 and nm < 6 and not empty:
                nm += 1; m2 = nm
            ops.append(call(rng, s, op, m, m2, q))
            m = m2
            if empty and len(ops) < 5:
                break
    s["ops"] = ops
    return s
