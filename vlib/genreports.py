"""Folders of experiments' files, requests for reports, and tables of numbers"""
MODELS = ["ctm", "stm_yv", "ctm_bohning", "ctm_bouchard", "stm_yv_bohning", "stm_yv_bouchard"]
BOUNDS = ["bouchard", "bohning"]
HOW = ["before", "after", "part", "dotless", "undated", "foldless"]


def name(f):
    return (f["kind"], f["bound"], f["k"], f["p"] if f["kind"] != "ctm" else 0, f["fold"], f["ok"])


def fill(rng, f):
    f = dict(f, sized=rng.random() < .7, how=rng.choice(HOW))
    if f["kind"] == "ctm" and f["ok"]:
        f["p"] = 0
    return f


def files(rng):
    ks, ps = rng.sample([1, 2, 5, 10, 11, 25, 100, 150], rng.randint(1, 3)), rng.sample([1, 2, 5, 10, 15, 25], rng.randint(1, 2))
    folds = rng.sample([0, 1, 2, 3, 4, 9, 10, 11, 25], rng.randint(1, 5))
    out = [fill(rng, dict(kind=kind, bound=b, k=k, p=p, fold=f, ok=rng.random() < .85))
           for kind in ("ctm", "stm_yv", rng.choice(["lda/vb", "mom/em", "stm-yv/bohning/online/fake", "rtm/vb"])) for b in BOUNDS for k in ks for p in ps for f in folds
           if rng.random() < .6]
    rng.shuffle(out)
    return distinct(out[:24]), ks, ps


def distinct(fs):
    seen, out = set(), []
    for f in fs:
        if f["kind"] == "ctm":
            f["p"] = 0
        if name(f) + (f["how"],) not in seen:
            seen.add(name(f) + (f["how"],))
            out.append(f)
    return out


def stale(rng, ks, ps):
    return [n for b in BOUNDS for k in ks for n in ["ctm_%s_k_%d.ipynb" % (b, k)] + ["stm_yv_%s_k_%d_p_%d.ipynb" % (b, k, p) for p in ps] if rng.random() < .2]


def ask(rng, ks, ps, builtin=False):
    via = rng.choice(["run", "run", "call"])
    kind = rng.choice(["ctm", "stm_yv"])
    r = rng.random()
    model = rng.choice(MODELS) if r < .9 else rng.choice(["lda", "rtm_bohning", "stm", "bohning"])
    dataset = rng.choice(["tweets", "tweets", "nips"])
    if via == "call" and kind == "ctm":
        dataset = "tweets"
    return dict(op="report", via=via, kind=kind, model=model, bounds=rng.sample(BOUNDS, rng.randint(1, 2)), ks=rng.sample(ks + [7, 1], rng.randint(1, len(ks) + 1)),
                ps=rng.sample(ps + [3, 1], rng.randint(1, len(ps) + 1)) if rng.random() < .93 or via == "call" else [], dataset=dataset, explicit=rng.random() < .5, builtin=builtin)


def scenario(rng):
    fs, ks, ps = files(rng)
    return dict(files=fs, present=[rng.random() < .4, rng.random() < .4], stale=stale(rng, ks, ps), ops=[ask(rng, ks, ps, rng.random() < .1) for _ in range(rng.randint(1, 4))])


def from_model(rng, m):
    fs = distinct([fill(rng, f) for f in m["files"]])
    ks, ps = [1, 12], [2]
    ops = []
    for a in m["asks"]:
        o = ask(rng, ks, ps)
        o.update(ks=ks, ps=ps, kind=a["kind"], bounds=sorted(a["bounds"]), model=a["kind"] if len(a["bounds"]) == 2 else "%s_%s" % (a["kind"], a["bounds"][0]))
        if a["kind"] == "ctm":
            o["dataset"] = "tweets"
        ops.append(o)
    return dict(files=fs, present=[rng.random() < .4, rng.random() < .4], stale=stale(rng, ks, ps), ops=ops)


def number(rng, style):
    if style == "whole":
        return rng.choice([0, 0, 1, 1, 2, rng.randint(-30, 30), rng.randint(-2000, 2000)]) * 1000
    return rng.choice([0, 1000, rng.randint(-900, 900), rng.randint(-2000000, 2000000)])


def written(rng, x, style):
    if style == "whole":
        return str(x // 1000)
    t = "%s%d.%03d" % ("-" if x < 0 else "", abs(x) // 1000, abs(x) % 1000)
    if x % 1000 == 0 and rng.random() < .6:
        return str(x // 1000)
    return t.rstrip("0") if x % 1000 and rng.random() < .5 else t


def table(rng):
    R, C = rng.randint(1, 8), rng.randint(1, 8)
    style = rng.choice(["whole", "real"])
    rows = [[number(rng, style) for _ in range(C)] for _ in range(R)]
    count = R
    op = rng.choice(["dense", "sparse"])
    r = rng.random()
    if r < .12:
        count = R + rng.choice([-1, 1, 2])
    elif r < .2 and R > 1:
        i = rng.randrange(1, R)
        rows[i] = rows[i] + [1000] if rng.random() < .5 or C < 2 else rows[i][:-1]
    lines = [rng.choice(["", "", " "]) + rng.choice([" ", "\t", "  "]).join(written(rng, x, style) for x in row) + rng.choice(["", "", " "]) for row in rows]
    name, ext = rng.choice(["table", "tags.train", "a.b.c", "x"]), rng.choice(["dat", "txt"])
    every = op == "dense" and rng.random() < .25
    if every:
        name, ext = rng.choice([("AllTags1k", "txt"), ("AllTags81", "txt"), ("Test_Tags1k", "dat"), ("Test_Tags81", "txt"), ("Train_Tags1k", "dat"), ("Train_Tags81", "txt")])
    return dict(op=op, lines=lines, given=rows, count=count, points=any("." in x for x in lines), name=name, ext=ext, folder=rng.choice(["in", "in", "low.level", "a.dat"]),
                all=every, ends=rng.random() < .8)


def tables(rng):
    ops = [table(rng) for _ in range(rng.randint(2, 6))]
    ops.append(dict(op="count", n=rng.choice([0, 7, 5018, 161789]), pad=rng.choice([0, 3]), lines=[], name="table", folder="in", ext="dat", ends=True))
    return dict(files=[], present=[False, False], stale=[], ops=ops)
