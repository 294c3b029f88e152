"""Logs of experiments"""
DESCS = ["", "", "alpha=0.1", "iters=100, \"quoted\" words", "a, b, c", "out-of-sample fold 3", "'x' \"y\"", "Precise", "1e-3 \"", "trained; K=5 twice"]
NAMES = ["LRO", "lda/vb", "sim/tfidf", "CTM", "rtm\"x\"", "K9"]
BLANKS = ["", "", "   ", "\t"]
COMMENTS = ["# a comment", "#", "  # indented", "# Precision"]
NOISES = ["Fold  0: Mean-Precisions at ", "-" * 80, " Final Results", "Mean reciprocal-rank : 0.123400", "Fold 3", "Mean Average Precision : 0.5"]


def table(rng):
    t = []
    for i in range(5):
        n = rng.choice([0, 1, 2, 7, rng.randint(1, 60), rng.randint(1, 2000)])
        t.append([n] + [rng.choice([0, 1, 50000, 99999, 100000, rng.randint(0, 100000)]) for _ in range(10)])
    return t


def run(rng, has):
    al, K, d = rng.choice(NAMES), str(rng.choice([2, 5, 10, 100, 250])), rng.choice(DESCS)
    title = al + rng.choice([", ", " "]) + rng.choice(["K=", "K=", ""]) + K + rng.choice(["", ",", " "] if not d else [" ", ", "]) + d
    return dict(algorithm=al, K=K, desc=d, title=title, has=sorted(has), perp=rng.choice([100000, 123456789, rng.randint(100000, 10 ** 8)]),
                mrr=rng.randint(0, 100000), map=rng.randint(0, 100000), precs=table(rng), recs=table(rng))


def dress(rng, runs, lines):
    s = dict(runs=[run(rng, h) for h in runs], lines=[], indent=rng.choice(["", "", " "]), after=rng.choice(["", " at M", ":"]), bar=rng.choice(["", " |"]),
             whole=rng.random() < .7, newline=rng.random() < .8)
    for l in lines:
        l = dict(l)
        k = l["kind"]
        if k in ("blank", "comment", "noise"):
            l["text"] = rng.choice({"blank": BLANKS, "comment": COMMENTS, "noise": NOISES}[k])
        s["lines"].append(l)
    return s


ORDER = ["perp", "precs", "recs", "mrr", "map"]


def may(h):
    return ("perp" in h or "precs" in h) and ("precs" in h or "recs" in h) and ("recs" in h or "mrr" in h) and ("mrr" in h or "map" in h)


def random_log(rng, many=False):
    runs, lines = [], []
    between = lambda: [dict(kind=rng.choice(["blank", "blank", "comment"]), run=0) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    lines += between()
    for i in range(rng.randint(3, 8) if many else rng.randint(1, 4)):
        while True:
            h = [f for f in ORDER if rng.random() < .8]
            if may(h):
                break
        runs.append(h)
        lines.append(dict(kind="title", run=i + 1))
        lines += between()
        for j, f in enumerate(h):
            lines.append(dict(kind=f, run=i + 1))
            if f != "mrr" and j + 1 < len(h):
                lines += [dict(kind=rng.choice(["blank", "noise", "comment"]), run=0) for _ in range(rng.choice([0, 0, 1, 2]))]
        if "map" not in h:
            lines.append(dict(kind="blank", run=0))
        lines += between()
    if many and rng.random() < .5:      # a long gap
        at = max(i for i, l in enumerate(lines) if l["kind"] == "title")
        lines[at:at] = [dict(kind="blank", run=0) for _ in range(1200)]
    return dress(rng, runs, lines)
