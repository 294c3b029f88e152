from vlib import gen
LEVEL = "model_checking"
RULE = ("one trace per history of corpus operations: all histories of the model's small corpora (depth 2, or 3 in the thorough "
        "tier) plus random longer histories over random corpora built directly or loaded from files with an order or limit")
ASSUMPTIONS = ["features are non-negative; a link matrix that isn't square has more columns than rows",
               "files are the pickles the loader documents; a document's last label ends its line"]


def models(tier):
    return [dict(module="MC_Corpus", cfg="MC_Corpus.cfg" if tier == "quick" else "MC_Corpus_thorough.cfg",
                 must_take=("Prune", "Trim", "TakeFold", "SplitOn", "AddIntercept", "Copy", "Retype"))]


def fill(rng, op):
    op = dict(op)
    if op["op"] == "prune":
        op["seed"] = rng.randrange(1 << 31)
    elif op["op"] == "copy":
        op["scribbleOn"] = rng.choice(["copy", "original"])
    elif op["op"] == "dtypes":
        op["one"] = rng.random() < .5
        op["want"] = [rng.choice(gen.DT) for _ in range(3)]
    elif op["op"] == "fold":
        op["debug"] = rng.random() < .5
    return op


def random_op(rng, base, square):
    F = len(base["feats"][0]) if base["feats"] else 0
    kinds = ["prune", "words", "fold", "copy", "dtypes", "changes", "gensim"]
    if F:
        kinds += ["intercept"] * 2
        if not base["links"] or square:
            kinds += ["splitfeature"] * 2
    if square:
        kinds += ["binary"]
    k = rng.choice(kinds)
    if k == "prune":
        op = dict(op=k, minWords=rng.randint(1, 3), minLinks=rng.choice([0, 0, 1, 2]))
    elif k == "words":
        op = dict(op=k, min=rng.randint(1, 3))
    elif k == "fold":
        K = rng.randint(2, 4)
        op = dict(op=k, fold=rng.randrange(K), k=K, pick=rng.choice([1, 2]))
    elif k == "splitfeature":
        op = dict(op=k, features=rng.sample(range(F), rng.randint(1, F)), pick=rng.choice([1, 2]))
    elif k == "copy":
        op = dict(op=k, deep=rng.random() < .7)
    else:
        op = dict(op=k)
    return fill(rng, op), k


def labels(rng, s):
    """Some documents have several labels"""
    if s["base"]["cats"] and rng.random() < .4:
        s["base"]["cats"] = [c if rng.random() < .5 else sum(rng.randint(1, 99) * 1000 ** i for i in range(rng.randint(1, 3))) for c in s["base"]["cats"]]
    s["openEnd"] = rng.random() < .3


def start(rng, D):
    r = rng.random()
    if r < .5:
        op = gen.construct(rng, D)
        if rng.random() < .4:
            op["limit"] = rng.randint(1, D + 1)
        return op
    op = dict(op="load", hasOrder=rng.random() < .7, order=[], limit=rng.choice([0, 0, rng.randint(1, D)]), orderAsList=rng.random() < .3)
    if op["hasOrder"]:
        op["order"] = rng.sample(range(D), rng.randint(max(1, D - 2), D))
    return op


def batches(tier, rng, models):
    scs = []
    ms = gen.uniq(models[0]["scenarios"]) if models else []
    rng.shuffle(ms)
    for m in ms[:250 if tier == "quick" else 4000]:
        b = m["base"]
        s = gen.forms(rng)
        s["base"] = {k: b[k] for k in ("words", "feats", "links", "cats", "dict")}
        s["ops"] = [gen.construct(rng, len(b["words"]), plain=True)] + [fill(rng, o) for o in m["hist"]]
        scs.append(s)
    for _ in range(200 if tier == "quick" else 2000):
        D = rng.randint(2, 9)
        base = gen.corpus(rng, D, dic=rng.random() < .6)
        s = gen.forms(rng)
        s["base"] = base
        s["ops"] = [start(rng, D)]
        square = bool(base["links"]) and len(base["links"][0]) == D
        for _ in range(rng.randint(1, 5)):
            op, k = random_op(rng, base, square)
            s["ops"].append(op)
            if k == "fold" and square:
                square = False
            if k == "splitfeature" and op["pick"] == 2:
                square = False
            if k == "splitfeature" and not square and base["links"]:
                break
        if rng.random() < .15 and square:
            s["ops"].append(dict(op="undirected"))
        scs.append(s)
    for _ in range(60 if tier == "quick" else 600):       # few links: removing documents leaves others without enough
        D = rng.randint(3, 14)
        base = gen.corpus(rng, D, links=True, ncols=D, dic=rng.random() < .5, maxcount=rng.choice([2, 9, 300, 70000]))
        style = rng.randrange(3)
        for i in range(D):
            for j in range(D):
                base["links"][i][j] = (rng.randint(1, 3) if style == 0 and abs(i - j) == 1 or style == 1 and j == i + 1 or
                                       style == 2 and rng.random() < 1.5 / D else 0)
        if rng.random() < .6:
            for i in range(rng.randint(1, 3)):
                base["links"][i][rng.randint(0, 2)] += 1
        s = gen.forms(rng)
        s["base"] = base
        s["ops"] = [start(rng, D), fill(rng, dict(op="prune", minWords=rng.randint(1, 3), minLinks=rng.choice([1, 1, 2])))]
        for _ in range(rng.randint(0, 2)):
            s["ops"].append(fill(rng, rng.choice([dict(op="prune", minWords=rng.randint(1, 3), minLinks=rng.choice([0, 1, 1, 2, 3])),
                                                  dict(op="words", min=rng.choice([2, 9, 300])), dict(op="copy", deep=True)])))
        scs.append(s)
    for _ in range(10 if tier == "quick" else 100):       # larger corpora
        D = rng.randint(40, 90)
        s = gen.forms(rng)
        s["base"] = gen.corpus(rng, D, W=rng.randint(10, 25), density=.15, dic=True, maxcount=rng.choice([3, 300, 70000]))
        s["ops"] = [start(rng, D)] + [random_op(rng, dict(s["base"], links=[]), False)[0] for _ in range(2)]
        if any(o["op"] == "splitfeature" for o in s["ops"]):
            s["ops"] = s["ops"][:1] + [o for o in s["ops"][1:] if o["op"] != "splitfeature"]
        scs.append(s)
    for s in scs:
        labels(rng, s)
    return [dict(name="history", driver="corpus", scenarios=scs, module="T_Corpus", cfg="T_Corpus.cfg")]
