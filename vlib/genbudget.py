"""Training budgets and logging"""
from vlib import genlife


def scenario(rng, kind, pairs, far=False):
    """pairs: (n, f) to run"""
    T = rng.choice([2, 3, 4])
    s = dict(kind=kind, K=rng.choice([2, 2, 3]), seed=rng.randrange(10 ** 6), size=0, query=False)
    s["alpha"] = rng.choice([.3, .5, 1.0, 2.5])
    s["beta"] = rng.choice([.1, .5, 1.0])
    s["words"] = genlife.words(rng, rng.choice([1, 2, 3]), T, 3)
    s["dtype"] = rng.choice(["int32", "float64", "float32"] + ([] if "CVB" in kind else ["int64"]))
    s["precision"] = "f4" if "CVB" in kind and rng.random() < .2 else "f8"
    if kind not in ("MOM_VB", "MOM_GIBBS") and not far and rng.random() < .3:
        s["query"] = True
        s["asked"] = genlife.words(rng, rng.choice([1, 2]), T, 3)
    s["steps"] = max(n for n, _ in pairs)
    s["runs"] = [dict(op="run", n=n, f=f, debug=rng.random() < .15) for n, f in pairs]
    if not s["query"] and not far:
        if kind == "LDA_VB_PYTHON_IMPL" and rng.random() < .4:
            s["runs"] = []
            s["size"] = rng.randint(1, 3)
        s["runs"].append(dict(op="twins", n=rng.choice([1, 2, 5, 9]), logs=[[0, False], [rng.choice([1, 2, 3, 10]), False], [rng.choice([0, 1, 4]), True]]))
    return s
