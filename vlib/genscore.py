"""Requests for scores"""
from vlib import genlife

METHODS = ["ll", "perp", "dcll", "dcperp"]


def eighths(rng, D, K):
    out = []
    for _ in range(D):
        style = rng.random()
        if style < .25:
            r = [0] * K; r[rng.randrange(K)] = 8
        else:
            r = [0] * K
            for _ in range(8):
                r[rng.randrange(K)] += 1
        out.append(r)
    return out


def scenario(rng, kind, reqs):
    T = rng.randint(2, 6)
    xs = genlife.corpora(rng, 3, T=T, empties=0)
    for x in xs:                    # documents with features aren't split
        if x.get("extras"):
            x["extras"] = "links"
    for c in xs[1:]:
        if rng.random() < .4:        # longer documents
            c["words"] = genlife.words(rng, len(c["words"]), T, maxcount=rng.choice([10, 60]))
    cf = genlife.cfg(rng, kind, T, 1)
    K = cf["K"]
    ops = []

    def y(x):
        return dict(x=x, y=eighths(rng, len(xs[x - 1]["words"]), K), ytype=rng.choice(["f8", "f8", "f4"]))
    for _ in range(7):
        x = rng.randint(1, 3)
        k = rng.choice(["given", "given", "inferred", "kept", "completion", "completion", "point", "module"])
        if k == "given" and kind == "LDA_GIBBS":
            k = "inferred"
        op = dict(op=k, x=x)
        if k in ("given", "point"):
            op.update(y(x))
        if k == "given":
            op["method"] = rng.choice(METHODS)
        elif k == "inferred":
            op["method"] = rng.choice(["ll", "perp"])
        elif k == "completion":
            op["method"] = rng.choice(["dcll", "dcperp"])
        elif k == "kept":
            op["method"] = rng.choice(METHODS)
            op["by"] = rng.choice(["transform", "transform", "fit_transform"])
        elif k == "module":
            if kind not in ("LDA_VB_PYTHON_IMPL", "LDA_GIBBS", "MOM_VB"):
                continue             # those of the others smooth the mixtures with the prior
            op["prior"] = rng.random() < .5
        ops.append(op)
    for r in reqs:
        if not r["y"] and r["method"] in ("ell", "eperp") and kind != "LDA_CVB0":
            continue                 # expectations exist for that kind only
        ops.append(dict(op="refuse", x=rng.choice([2, 3]), method=r["method"], withy=r["y"], withqs=r["qs"], text=rng.random() < .4))
    ops.append(dict(op="name", method=rng.choice(METHODS + ["ell", "eperp"]), style=rng.choice(["plain", "upper", "padded", "title"])))
    ops.append(dict(op="badname", x=1, text=rng.choice(["", "likelihood", "perplexity", "log_likelihood_point_", "log likelihood point"])))
    ops.append(dict(op="perpfn", where=rng.choice(["evals", "module"]), k=rng.choice([0, 1, 3, 10, 20]), n=rng.choice([2, 7, 1000, 100000]),
                    **{"as": rng.choice(["count", "dataset", "word"])}))
    return dict(corpora=xs, cfg=cf, seed=rng.choice([0, 3, 99]), pre=rng.choice([[], [], ["fit"], ["transform"], ["transform", "fit"]]), ops=ops)
