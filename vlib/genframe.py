"""Sequences of public operations on corpora"""
from vlib import gen


def scenario(rng, n):
    D = rng.randint(2, 7)
    base = gen.corpus(rng, D, empty_ok=False, ncols=D if rng.random() < .7 else None)
    s = dict(gen.forms(rng), base=base, seed=rng.randrange(1 << 30), order=rng.sample(range(50), D) if rng.random() < .5 else [])
    F = len(base["feats"][0]) if base["feats"] else 0
    square = bool(base["links"]) and len(base["links"][0]) == D
    ops = [dict(op="construct", limit=rng.choice([0, 0, max(1, D - 1)])), dict(op="construct")]
    made = 2
    for _ in range(n):
        on = rng.randint(1, made)
        kinds = ["copy", "deepcopy", "changes", "trim", "fold", "completion", "look", "prune", "dtypes", "mrr", "map", "precrec"]
        if F:
            kinds += ["intercept"] * 2 + ["splitfeature"]
        if base["links"]:
            kinds += ["splitlinks", "foldlinks", "binary", "binary"] + (["undirected"] if square else [])
        k = rng.choice(kinds)
        op = dict(op=k, on=on)
        if k in ("mrr", "map", "precrec"):
            op = dict(op=k, D=rng.randint(1, 5), C=rng.randint(1, 6), want=[rng.choice(gen.DT)], unsorted=rng.random() < .4,
                      ms=rng.choice([[1], [3, 1], [1, 2, 5], [10]]), groups=rng.choice([[[0, 2]], [[1, 1], [2, 9]], [[3, 3], [-1, -1]]]))
        elif k == "trim":
            op["min"] = rng.randint(1, 2)
        elif k == "fold":
            op["k"] = rng.randint(2, 3); op["fold"] = rng.randrange(op["k"])
        elif k == "completion":
            op.update(min=rng.choice([0, 0, 1]), seed=rng.randrange(1000))
        elif k == "splitlinks":
            op.update(symmetric=rng.random() < .4, seed=rng.randrange(1000))
        elif k == "foldlinks":
            op.update(k=rng.randint(2, 3), min=rng.randint(1, 3)); op["fold"] = rng.randrange(op["k"])
        elif k == "splitfeature":
            op["features"] = rng.sample(range(F), rng.randint(1, F))
        elif k == "prune":
            op.update(min=rng.randint(1, 2), minLinks=rng.choice([0, 0, 1]), seed=rng.randrange(1000))
        elif k == "dtypes":
            op["want"] = [rng.choice(gen.DT) for _ in range(3)]
        if k in ("copy", "deepcopy", "changes", "trim"):
            made += 1
        elif k in ("fold", "completion", "splitlinks", "foldlinks", "splitfeature"):
            made += 2
        made = min(made, 12)
        ops.append(op)
    s["ops"] = ops
    return s
