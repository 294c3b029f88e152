"""Corpora for the similarity recommender"""
from vlib import genlife


def links(rng, D, C):
    p = rng.choice([0, .2, .5, .9])
    return [[int(rng.random() < p) for _ in range(C)] for _ in range(D)]


def corpus(rng, words, D, near, lk=None, wtype=None):
    return dict(words=words, links=lk or links(rng, len(words), D), repeat=[rng.choice([1, 1, 1, 2, 3, 40]) if not near else 1 for _ in words],
                wtype=wtype or rng.choice(["float64", "float64", "float32", "int32", "int64"]), ltype=rng.choice(["float64", "int32", "float32"]))


def words(rng, D, T, near):
    w = genlife.words(rng, D, T, maxcount=rng.choice([1, 2, 5, 9]))
    for d in range(D):
        r = rng.random()
        if r < .25 and d:                           # the same document again, or nearly
            w[d] = list(w[rng.randrange(d)])
            if rng.random() < .4:
                w[d][rng.randrange(T)] += 1
        elif r < .4 and not near:                   # nothing, or a single word
            w[d] = [0] * T
            if rng.random() < .6:
                w[d][rng.randrange(T)] = rng.randint(1, 9)
    if rng.random() < .3:                           # a word of all documents
        t = rng.randrange(T)
        for r in w:
            r[t] = max(r[t], 1)
    if near:
        for r in w:
            if not any(r):
                r[rng.randrange(T)] = 1
    if not any(any(r) for r in w):
        w[0][0] = 2
    return w


def finish(rng, cs, near, first=None):
    n = rng.choice([1, 2, 3, 5])
    ops = []
    if rng.random() < .1:
        ops.append(dict(op="refuse", name=rng.choice(["", "lda", "tf-idf", "TFIDF", "cosine"])))
    ops.append(dict(op="train", iterations=n, given=rng.random() < .3))
    if rng.random() < .3:
        ops.append(dict(op="copy"))

    def link(x, docs=None):
        D = len(cs[x - 1]["words"])
        if docs is None:
            docs = list(range(D))
            if rng.random() < .5:
                docs = rng.sample(docs, rng.randint(1, D))
        full = docs == list(range(D)) and rng.random() < .7
        return dict(op="link", x=x, docs=docs, subset=not full, own=[rng.choice([150, 400, 700, 950]) for _ in docs])
    ops.append(link(1, first))
    ops.append(dict(op="score", x=1))
    for x in range(2, len(cs) + 1):
        ops.append(dict(op="query", x=x, iterations=n))
        ops += [link(x), dict(op="score", x=x)]
    if len(cs) > 1:
        ops.append(link(1))
    if near:                            # mixtures are in double precision, and scored with words that are too
        ops = [o for o in ops if o["op"] != "score" or cs[o["x"] - 1]["wtype"] == "float64"]
    return ops


def scenario(rng, method):
    near = method == "lda"
    D, T = rng.randint(1, 7), rng.randint(1 if not near else 2, 6)
    cs = [corpus(rng, words(rng, D, T, near), D, near)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        cs.append(corpus(rng, words(rng, rng.choice([1, 2, 3, D]), T, near), D, near))
    return dict(method=method, K=rng.choice([2, 2, 3, 4]), dtype="float64" if near else rng.choice(["float64", "float32"]), seed=rng.randrange(10 ** 6),
                corpora=cs, ops=finish(rng, cs, near))


def from_model(rng, m):
    D = len(m["words"])
    lk = [[int(j + 1 in ls) for j in range(D)] for ls in m["links"]]
    w = [list(r) for r in m["words"]]
    if not any(any(r) for r in w):
        return None                   # models cannot start from nothing at all
    cs = [corpus(rng, w, D, False, lk)]
    return dict(method="tfidf", K=2, dtype=rng.choice(["float64", "float32"]), seed=1, corpora=cs, ops=finish(rng, cs, False, [d - 1 for d in m["list"]]))
