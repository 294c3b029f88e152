def docs_random(rng, D, C, loose=False):
    """loose: expected links need not be candidates, and there may be no candidates at all"""
    out = []
    for _ in range(D):
        n = rng.randint(0 if rng.random() < .1 else 1, min(C, 12))
        ids = sorted(rng.sample(range(C), n))
        scores = rng.sample(range(1, 60), n)
        k = rng.choice([0, 1, 1, 2, 3, rng.randint(0, 6)])
        exp = rng.sample(ids, min(k, n, 6))
        if loose and rng.random() < .3:
            exp = rng.sample(range(C), min(k, C, 6))
            if rng.random() < .4:
                ids, scores = [], []
        if rng.random() < .5:
            exp.sort()
        out.append(dict(cands=[[c, v] for c, v in zip(ids, scores)], expected=exp))
    if not any(d["expected"] for d in out):
        for d in out:
            if d["cands"]:
                d["expected"] = [d["cands"][-1][0]]
                break
        else:
            out[0] = dict(cands=[[0, 5]], expected=[0])
    return out


def from_model(m):
    return [dict(cands=[[i, v] for i, v in enumerate(d["scores"])], expected=[i for i, v in enumerate(d["expected"]) if v]) for d in m["docs"]]


def variant(rng):
    dtype = rng.choice(["float64", "float64", "float32"])
    return dict(layout=rng.choice([0, 0, 1, 2, 5]), dtype=dtype,
                transform=rng.choice(["plain", "small", "log", "square", "negative", "centred"] +
                                     (["close", "minute", "huge", "half"] if dtype == "float64" else ["close4", "minute4"])))
