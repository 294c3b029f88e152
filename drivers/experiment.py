"""Runs the experiments of sidetopics.run with a model that learns nothing, but keeps a record of what it was asked to do, and with what."""
import inspect, importlib, io, os, pickle, re, shutil, sys, tempfile, contextlib, types
import numpy as np, scipy.sparse as ssp
import kit
from kit import BAD, fix, whole, rows, sparse
from sidetopics.model.common import DataSet
import sidetopics.model as models_pkg
import sidetopics.run.__main__ as app
import sidetopics.model.lda_vb_python as lda_vb

LEAVES = ["ctm", "ctm_bohning", "stm_yv", "stm_yv_bohning", "mom_em", "mom_gibbs", "lda_cvb", "lda_cvb0", "lda_vb_python",
          "lda_gibbs", "rtm", "mtm2", "mtm3", "dmr", "lro_vb", "sim_based_rec", "stm_uv_vec_y_bohning"]


class Model:
    def __init__(self, ident, name, K, P, vocab):
        self.ident, self.name, self.K, self.vocab = ident, name, K, vocab
        if P is not None:
            self.P = P


class State:
    def __init__(self, means, expMeans, varcs, docLens):
        self.means, self.expMeans, self.varcs, self.docLens = means, expMeans, varcs, docLens

    @property
    def ident(self):
        return int(self.docLens[0])


class Lda:
    def __init__(self, name):
        self.name = name


class LdaTops:
    def __init__(self, n):
        self.docLens, self.topicDists, self.processed = np.arange(1, n + 1), np.eye(n), True


class Broken(Exception):
    pass


class Recorder:
    def __init__(self, s):
        self.s, self.events, self.sets, self.keys, self.next, self.attempts, self.step, self.likes = s, [], [], {}, 1, 0, 0, 0
        self.rng = np.random.RandomState(s["seed"])
        self.orig = None

    def ident(self):
        self.next += 1
        return self.next

    def data(self, d):
        rec = dict(docs=[int(i) + 1 for i in d.order], words=rows(d.words), feats=rows(d.feats), links=rows(d.links), dt=str(d.words.dtype))
        k = repr(rec)
        if k not in self.keys:
            self.sets.append(rec)
            self.keys[k] = len(self.sets)
        return self.keys[k]

    def call(self, op, **kw):
        """Records a call; True if it is one of those that are to fail"""
        if op == "copy":
            self.attempts += 1
            self.step = 0
        self.step += 1
        f = self.s["fails"]
        down = self.attempts >= 1 and self.attempts <= len(f) and f[self.attempts - 1] == self.step
        self.events.append(dict(op=op, failed=down, **kw))
        if down:
            raise Broken("as asked")


def ids(x):
    return getattr(x, "ident", BAD)


def topic_means(n, K, zs, dt):
    m = np.full((n, K), -1000, dtype=dt)
    m[np.arange(n), zs] = 0
    return m


def module(R, leaf, sigs):
    s = R.s
    m = types.ModuleType("sidetopics.model." + leaf)
    m.MODEL_NAME, m.QueryState = s["name"], State
    # as pickle wants to find these by name, they are those of this module
    fdt = np.float32 if s["dtype"] == "f4" else np.float64

    def bound(sig, a, kw):
        b = sig.bind(*a, **kw)
        out = []
        for k, v in b.arguments.items():
            if k == "data":
                v = R.data(v)
            elif isinstance(v, bool):
                v = int(v) * 1000000
            elif isinstance(v, (int, float)):
                v = fix(v, 1000000)
            elif isinstance(v, type):
                v = "@" + np.dtype(v).name
            out.append([k, v if isinstance(v, int) else str(v)])
        return out

    def newModelAtRandom(*a, **kw):
        R.events.append(dict(op="new", leaf=leaf, args=[dict(arg=k, n=v if isinstance(v, int) else 0, text=v if isinstance(v, str) else "") for k, v in bound(sigs["model"], a, kw)]))
        return Model(1, s["name"], s["K"], s["P"], R.vocab(fdt))

    def newTrainPlan(*a, **kw):
        args = [dict(arg=k, n=v if isinstance(v, int) else 0, text=v if isinstance(v, str) else "") for k, v in bound(sigs["plan"], a, kw)]
        R.plans += 1
        R.events.append(dict(op="plan", leaf=leaf, new=R.plans, args=args))
        return ("plan", R.plans)

    def newModelFromExisting(model, withLdaModel=None):
        n = R.ident()
        R.call("copy", of=ids(model), new=n, lda=getattr(withLdaModel, "tag", 0))
        return Model(n, model.name, model.K, getattr(model, "P", None), model.vocab.copy())

    def newQueryState(data, model, withLdaTopics=None):
        n, d = R.ident(), R.data(data)
        R.call("state", data=d, model=ids(model), new=n, lda=[whole(x) for x in withLdaTopics.docLens] if withLdaTopics is not None else [])
        return State(np.zeros((len(data), s["K"]), dtype=fdt), np.ones((len(data), s["K"])), np.ones((len(data), s["K"])), np.full(len(data), n))

    def zs(n):
        return [int(x) for x in R.rng.permutation(s["K"])[:n]] if n <= s["K"] else [int(x) for x in R.rng.randint(0, s["K"], size=n)]

    def fit(op, data, model, tops, plan):
        n, t, d = R.ident(), R.ident(), R.data(data)
        z = zs(len(data))
        R.call(op, data=d, model=ids(model), tops=ids(tops), plan=whole(plan[1]), new=n if op == "train" else ids(model), newTops=t, z=[x + 1 for x in z])
        new = State(topic_means(len(data), s["K"], z, fdt), np.ones((len(data), s["K"])), np.full((len(data), 1), 5), np.full(len(data), t))
        return n, new

    def train(data, model, tops, plan):
        n, new = fit("train", data, model, tops, plan)
        res = Model(n, model.name, model.K, getattr(model, "P", None), model.vocab)
        model.ident = -n                               # what was given is spent
        return res, new, ([n, n + 1], [-n], [-n - 1])

    def query(data, model, tops, plan):
        _, new = fit("query", data, model, tops, plan)
        return model, new

    def log_likelihood(data, model, tops):
        R.likes += 1
        k, n = 2 + R.likes, int(data.words.sum())
        R.call("like", data=R.data(data), model=ids(model), tops=ids(tops), bits=k, words=n)
        return -np.log(2.) * k * n

    def wordDists(model):
        R.events.append(dict(op="dists", model=ids(model)))
        return model.vocab

    def topicDists(tops):
        e = np.exp(tops.means)
        return e / e.sum(axis=1)[:, None]

    def min_link_probs(model, train_tops, query_tops, links, docSubset=None):
        n = R.ident()
        R.events.append(dict(op="floor", model=ids(model), train=ids(train_tops), query=ids(query_tops), links=rows(links),
                             subset=[] if docSubset is None else [int(i) + 1 for i in docSubset], all=docSubset is None, new=n))
        return ("floor", n)

    def link_probs(model, train_tops, query_tops, floor, docSubset=None):
        Q, D = len(query_tops.docLens), len(train_tops.docLens)
        who = list(range(Q)) if docSubset is None else [int(i) for i in docSubset]
        sc = np.array([R.rng.permutation(D) + 1 for _ in who]).reshape(len(who), D)
        R.events.append(dict(op="links", model=ids(model), train=ids(train_tops), query=ids(query_tops), floor=whole(floor[1]),
                             subset=[i + 1 for i in who] if docSubset is not None else [], all=docSubset is None, scores=rows(sc)))
        return ssp.csr_matrix(sc.astype(fdt) / 64)

    for f in (newModelAtRandom, newTrainPlan, newModelFromExisting, newQueryState, train, query, log_likelihood, wordDists, topicDists,
              min_link_probs, link_probs):
        setattr(m, f.__name__, f)
    m.is_undirected_link_predictor = lambda: s["undirected"]
    m.LDA, m.TF_IDF = "lda", "tfidf"
    return m


SIGS = {}


def signatures():
    if not SIGS:
        for leaf in LEAVES:
            try:
                real = importlib.import_module("sidetopics.model." + leaf)
                SIGS[leaf] = dict(model=inspect.signature(real.newModelAtRandom), plan=inspect.signature(real.newTrainPlan))
            except Exception:
                pass
    return SIGS


def log2k(x):
    x = float(x)
    return fix(np.log2(x), 1000) if x > 0 else BAD


def bits(x, n=None):
    """A log likelihood in bits, if it's a whole number of them"""
    v = -float(x) / np.log(2.)
    return int(round(v)) if abs(v - round(v)) < .01 and abs(v) < kit.HUGE else BAD


def thou(x):
    return fix(float(x), 1000)


def report(text):
    """What was printed"""
    r = dict(folds=[], totals=[], whole=[], tables=[], mrr=[], map=[], tags=[], foldmaps=[])
    title = None
    for line in text.splitlines():
        m = re.search(r"Fold\s+(-?\d+): Train-set Perplexity:\s*(\S+)\s+Query-set Perplexity:\s*(\S+)", line)
        if m:
            r["folds"].append(dict(fold=int(m.group(1)), train=log2k(m.group(2)), query=log2k(m.group(3))))
            continue
        m = re.search(r"Total \((\d+)\): (Train|Query)-set Likelihood:\s*(\S+)\s+(Train|Query)-set Perplexity:\s*(\S+)", line)
        if m:
            r["totals"].append(dict(n=int(m.group(1)), which=m.group(2), bits=bits(m.group(3)), perp=log2k(m.group(5))))
            continue
        m = re.search(r"^Train-set (Likelihood|Perplexity):\s*(\S+)", line)
        if m:
            r["whole"].append(dict(which=m.group(1), v=bits(m.group(2)) if m.group(1) == "Likelihood" else log2k(m.group(2))))
            continue
        m = re.search(r"(Precision|Recall)\s*$", line)
        if m:
            title = m.group(1)
            r["tables"].append(dict(title=title, ms=[], rows=[]))
            continue
        m = re.match(r"^\|\s*Group\s*\|\s*Doc Count\s*\|(.*)\|\s*$", line)
        if m and r["tables"]:
            r["tables"][-1]["ms"] = [int(x) for x in m.group(1).split("|")]
            continue
        m = re.match(r"^\|\s*(-?\d+),\s*(-?\d+)\s*\|\s*(\d+)\s*\|(.*)\|\s*$", line)
        if m and r["tables"]:
            r["tables"][-1]["rows"].append(dict(group=[int(m.group(1)), int(m.group(2))], n=int(m.group(3)), v=[thou(x) for x in m.group(4).split("|")]))
            continue
        m = re.search(r"Mean reciprocal-rank\s*:\s*(\S+)", line)
        if m:
            r["mrr"].append(fix(float(m.group(1)), 10000))
            continue
        m = re.search(r"Mean [Aa]verage[- ][Pp]recision\s*:\s*(\S+)", line)
        if m:
            r["map"].append(fix(float(m.group(1)), 10000))
            continue
        m = re.search(r"Fold\s+(-?\d+): Mean-Average-Precision\s+(\S+)", line)
        if m:
            r["foldmaps"].append(dict(fold=int(m.group(1)), v=fix(float(m.group(2)), 10000)))
            continue
        m = re.match(r"^\s*(Precision|Recall)\t\s*(\S+)\t\s*(\d+)\t(.*)$", line)
        if m:
            r["tags"].append(dict(title=m.group(1), tag=m.group(2), n=int(m.group(3)), v=[thou(x) for x in m.group(4).split("\t")]))
        m = re.match(r"^\s*Metric\t\s*Hashtag\t\s*Count\t(.*)$", line)
        if m:
            r["tags"].append(dict(title="", tag="", n=0, v=[int(x) for x in m.group(1).split("\t")]))
    return r


def fingerprint(d):
    return repr((rows(d.words), rows(d.feats), rows(d.links), list(map(int, d.order))))


def files(R, d, returned, before):
    out = []
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if p in before:
            continue
        m = re.match(r"^(.*?)_(?:fold_(-?\d+)_)?\d{8}_\d{4}\.pkl$", f)
        rec = dict(stem=m.group(1) if m else f, fold=int(m.group(2)) if m and m.group(2) else -1, returned=any(os.path.realpath(str(x)) == os.path.realpath(p) for x in returned))
        try:
            with open(p, "rb") as h:
                order, itrs, vbs, likes, model, tt, qt = pickle.load(h)
            rec.update(ok=True, order=[int(i) + 1 for i in order], itrs=[whole(x) for x in itrs], vbs=[whole(x) for x in vbs], likes=[whole(x) for x in likes],
                       model=ids(model), train=ids(tt), query=0 if qt is None else ids(qt), exps=tt.expMeans is not None,
                       varcs=tt.varcs is not None and tt.means is not None)
        except Exception:
            rec.update(ok=False, order=[], itrs=[], vbs=[], likes=[], model=0, train=0, query=0, exps=False, varcs=False)
        out.append(rec)
    return out


def run(s):
    R = Recorder(s)
    R.plans = 0
    W, X, L = np.array(s["words"]), np.array(s["feats"]), np.array(s["links"])
    dt = dict(f8=np.float64, f4=np.float32, i4=np.int32)[s["dtype"]]
    fdt = np.float32 if s["dtype"] == "f4" else np.float64
    V = np.array(s["vocab"])
    R.vocab = lambda t: (V / 1024.).astype(fdt)
    init = {k: s[k] for k in ("flow", "via", "words", "feats", "links", "nfolds", "stop", "name", "K", "P", "undirected", "tags", "prop", "mask", "dtype", "vocab", "save", "lda", "cmd", "limit", "opts")}
    init["P"] = -1 if s["P"] is None else s["P"]
    init["dict"] = s["dict"]
    tmp = tempfile.mkdtemp(prefix="experiment-")
    out, saved = io.StringIO(), {}
    try:
        ldaModel = ldaTops = None
        if s["lda"]:
            ldaModel = Lda(lda_vb.MODEL_NAME)
            ldaModel.tag = 7
        before, returned, exc = set(), [], ""
        before_data = sample = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            if s["via"] == "call":
                data = DataSet(sparse(W.astype(dt)), sparse(X.astype(dt)) if X.size else None, sparse(L.astype(dt)) if L.size else None)
                if s["lda"]:
                    ldaTops = LdaTops(len(W))
                mdl = module(R, "ctm", dict(model=None, plan=None))
                sample = Model(1, s["name"], s["K"], s["P"], R.vocab(fdt))
                before_data = fingerprint(data)
                R.data(data)
                tp, qp = ("plan", 1), ("plan", 2)
                d = tmp if s["save"] else None
                n, stop = s["nfolds"], s["stop"]
                f = dict(perplexity=lambda: app.cross_val_and_eval_perplexity(data, mdl, sample, tp, qp, n, stop, d),
                         hashtags=lambda: app.cross_val_and_eval_hashtag_prec_at_m(data, [t - 1 for t in s["tags"]], 1 - s["prop"] / 100., mdl, sample, tp, s["dict"], n, stop, d),
                         tags=lambda: app.cross_val_and_eval_tag_prec_rec_at_m(data, [t - 1 for t in s["tags"]], s["prop"] / 100., mdl, sample, tp, s["dict"], n, stop, d),
                         linkmap=lambda: app.link_split_map(data, mdl, sample, tp, n, d),
                         linkprec=lambda: app.link_split_prec_rec(data, mdl, sample, tp, n, stop, d, ldaModel, ldaTops),
                         insample=lambda: app.insample_lro_style_prec_rec(data, mdl, sample, tp, n, stop, d, ldaModel, ldaTops),
                         outsample=lambda: app.outsample_lro_style_prec_rec(data, mdl, sample, tp, [("f%d" % i, i - 1) for i in s["mask"]], d, ldaModel, ldaTops))[s["flow"]]
            else:
                f = lambda: through_run(R, s, tmp, W, X, L, ldaModel, before)
            try:
                returned = f() or []
            except (Exception, SystemExit) as e:
                exc = type(e).__name__
                if os.environ.get("VERIF_DEBUG"):
                    import traceback
                    traceback.print_exc(file=sys.__stderr__)
            changed = s["via"] == "call" and (fingerprint(data) != before_data or sample.ident != 1 or not np.array_equal(sample.vocab, R.vocab(fdt)))
        rep = report(out.getvalue())
        R.events.append(dict(op="report", failed=False, exc=exc, changed=bool(changed), files=files(R, tmp, returned, before), returned=len(returned), **rep))
    finally:
        shutil.rmtree(tmp)
    init["sets"] = R.sets
    return dict(init=init, events=R.events)


def through_run(R, s, tmp, W, X, L, ldaModel, before):
    sigs = signatures()
    paths = []
    for k, m in (("words", W), ("feats", X), ("links", L)):
        if m.size:
            p = os.path.join(tmp, k + ".bin")
            with open(p, "wb") as f:
                pickle.dump(sparse(m.astype(np.float64)), f)
            before.add(p)
            paths += ["--" + k, p]
    p = os.path.join(tmp, "dict.bin")
    with open(p, "wb") as f:
        pickle.dump(s["dict"], f)
    before.add(p)
    o = s["opts"]
    args = ["--model", s["cmd"], "-k", str(s["K"]), "-p", str(o["P"]), "-q", str(o["Q"]), "--eval", s["evalname"], "--iters", str(o["iters"]), "--query-iters", str(o["qiters"]),
            "--folds", str(s["nfolds"]), "--truncate-folds", str(s["stop"]), "--dtype", s["dtype"] + ":" + o["mdt"], "--word-dict", p,
            "--vocab-prior", str(o["prior"] / 100.), "--feat-var", str(o["fv"] / 100.), "--topic-var", str(o["tv"] / 100.), "--lat-topic-var", str(o["ltv"] / 100.),
            "--lat-feat-var", str(o["lfv"] / 100.)] + paths
    if s["limit"]:
        args += ["--limit-to", str(s["limit"])]
    if o["batch"]:
        args += ["--gradient-batch-size", str(o["batch"]), "--gradient-rate-delay", str(o["delay"] / 100.), "--gradient-forgetting-rate", str(o["forget"] / 100.)]
    if s["save"]:
        args += ["--out-model", tmp]
    if s["mask"]:
        args += ["--feats-mask", ",".join("f%d:%d" % (i, i - 1) for i in s["mask"])]
    if s["flow"] == "tags":
        args += ["--tag-recall-opts", "%d:%d,%s" % (s["tags"][0] - 1, s["tags"][-1], s["prop"] / 100.)]
    if s["lda"]:
        p = os.path.join(tmp, "lda.bin")
        order = order_after_pruning(s, W, X, L)
        if o["misfit"]:
            order = order[::-1].copy()
        with open(p, "wb") as f:
            pickle.dump((order, [], [], [], ldaModel, LdaTops(len(order)), None), f)
        before.add(p)
        args += ["--lda-model", p]
    olds, alone = {}, app.cross_val_and_eval_tag_prec_rec_at_m
    try:
        if s["flow"] == "hashtags":      # which are first evaluated as tags
            app.cross_val_and_eval_tag_prec_rec_at_m = lambda *a, **kw: []
        for leaf in LEAVES:
            full = "sidetopics.model." + leaf
            olds[leaf] = (sys.modules.get(full), getattr(models_pkg, leaf, None))
            if leaf in sigs:
                m = module(R, leaf, sigs[leaf])
                sys.modules[full] = m
                setattr(models_pkg, leaf, m)
        return app.run(args)
    finally:
        app.cross_val_and_eval_tag_prec_rec_at_m = alone
        for leaf, (a, b) in olds.items():
            full = "sidetopics.model." + leaf
            if a is not None:
                sys.modules[full] = a
            else:
                sys.modules.pop(full, None)
            if b is not None:
                setattr(models_pkg, leaf, b)


def order_after_pruning(s, W, X, L):
    """The order in which the application will hold the documents"""
    d = DataSet(ssp.csr_matrix(W.astype(float)), None, None, limit=s["limit"])
    d.prune_and_shuffle(min_unique_word_count=3)
    return np.array(d.order)


# ---- what experiments are made of -------------------------------------------------------------------------
def pieces(s):
    ev = []
    W = np.array(s["words"])
    for c in s["calls"]:
        op, a = c["op"], dict(c)
        rec = dict(dict(exc="", rows=[], rows2=[], idx=[], pairs=[], text="", fold=-1), **c)
        words = sparse(W.astype(c.get("dt", "float64")))
        before = rows(words)
        if op == "popular":
            d = DataSet(words)
            r, rec["exc"] = kit.attempt(app.popular_indices, d, [i - 1 for i in a["cols"]], a["count"])
            rec["idx"] = [] if rec["exc"] else [int(i) + 1 for i in r]
        elif op == "hashtags":
            d = DataSet(words)
            r, rec["exc"] = kit.attempt(app.popular_hashtag_indices, d, s["dict"], a["count"])
            rec["idx"] = [] if rec["exc"] else [int(i) + 1 for i in r]
        elif op == "split":
            r, rec["exc"] = kit.attempt(app.soft_split_on_indices, words, [i - 1 for i in a["cols"]], np.random.RandomState(a["seed"]), a["percent"] / 100.)
            if not rec["exc"]:
                rec["rows"], rec["rows2"] = rows(r[0]), rows(r[1])
        elif op == "clip":
            r, rec["exc"] = kit.attempt(app.csr_clip, words, a["lo"], a["hi"])
            rec["rows"] = [] if rec["exc"] else rows(r)
        elif op == "combine":
            avgs = counts = None
            for part in a["parts"]:
                na = {tuple(g): list(v) for g, v in zip(a["groups"], part["avgs"])}
                nc = {tuple(g): n for g, n in zip(a["groups"], part["counts"])}
                keep = repr((na, nc))
                r, rec["exc"] = kit.attempt(app.combine_map, avgs, counts, na, nc)
                if rec["exc"]:
                    break
                avgs, counts = r
                if keep != repr((na, nc)):
                    rec["exc"] = "ArgumentsChanged"
            if not rec["exc"]:
                rec["rows"] = [[fix(x, 1000) for x in avgs[tuple(g)]] for g in a["groups"]]
                rec["idx"] = [whole(counts[tuple(g)]) for g in a["groups"]]
        elif op == "dtypes":
            r, rec["exc"] = kit.attempt(app.parse_dtypes, a["given"])
            rec["pairs"] = [] if rec["exc"] else [np.dtype(x).name for x in r]
        elif op == "mask":
            r, rec["exc"] = kit.attempt(app.parse_features_mask, types.SimpleNamespace(features_mask_str=a["given"] or None))
            rec["pairs"] = [] if rec["exc"] or r is None else [dict(label=str(x), n=whole(y)) for x, y in r]
        elif op == "file":
            r, rec["exc"] = kit.attempt(app.newModelFile, a["name"], a["K"], a["P"] if a["P"] >= 0 else None, a["fold"] if a["fold"] >= 0 else None, "/some/where")
            m = None if rec["exc"] else re.match(r"^/some/where/(.*?)_(?:fold_(-?\d+)_)?\d{8}_\d{4}\.pkl$", r)
            rec["text"] = m.group(1) if m else "?"
            rec["found"] = int(m.group(2)) if m and m.group(2) else -1
        elif op == "adapt":
            with tempfile.TemporaryDirectory() as t:
                p = os.path.join(t, "m.bin")
                with open(p, "wb") as f:
                    pickle.dump((np.array(a["saved"]), [1], [2], [3], "model", "tops", "query"), f)
                r, rec["exc"] = kit.attempt(app.load_and_adapt_lda_model, p, np.array(a["order"]))
                rec["text"] = "" if rec["exc"] else "%s/%s" % r
        elif op == "real":
            rec.update(real(s, a), dt="")
        rec["touched"] = rows(words) != before
        ev.append(rec)
    return dict(init=dict(words=s["words"], dict=s["dict"], hash=[w[0] == "#" for w in s["dict"]]), events=ev)


def real(s, a):
    """The application itself, with one of the library's models, twice"""
    W, X, L = np.array(s["W"]), np.array(s["X"]), np.array(s["L"])
    tmp = tempfile.mkdtemp(prefix="experiment-")
    try:
        paths = []
        for k, m in (("words", W), ("feats", X), ("links", L)):
            if m.size and (k != "links" or a["cmd"][:3] in ("lro", "sim") or a["eval"] not in ("perplexity", "tag_prec_at_m")):
                p = os.path.join(tmp, k + ".bin")
                with open(p, "wb") as f:
                    pickle.dump(sparse(m.astype(np.float64), "plain"), f)
                paths += ["--" + k, p]
        p = os.path.join(tmp, "dict.bin")
        with open(p, "wb") as f:
            pickle.dump(["w%d" % i for i in range(W.shape[1])], f)
        runs, exc, files = [], "", 0
        for again in range(2):
            d = os.path.join(tmp, "out%d" % again)
            os.mkdir(d)
            out = io.StringIO()
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                try:
                    r = app.run(["-m", a["cmd"], "-k", str(a["K"]), "-p", "2", "-q", "2", "-o", d, "-i", "6", "-j", "4", "-f", str(a["n"]), "-v", a["eval"], "-t", a["dts"],
                                 "--word-dict", p, "--tag-recall-opts", "0:-1,0.5"] + paths)
                    files = len(r) if sorted(os.path.basename(x) for x in r) == sorted(os.listdir(d)) else BAD
                    for x in r:
                        with open(x, "rb") as f:
                            if len(pickle.load(f)) != 7:
                                files = BAD
                except (Exception, SystemExit) as e:
                    exc = type(e).__name__
                    if os.environ.get("VERIF_DEBUG"):
                        import traceback
                        traceback.print_exc(file=sys.__stderr__)
            runs.append(report(out.getvalue()))
        r = runs[0]
        return dict(exc=exc, files=files, folds=r["folds"], totals=[t["perp"] for t in r["totals"]], same=repr(runs[0]) == repr(runs[1]), tables=len(r["tables"]), maps=len(r["map"]) + len(r["foldmaps"]))
    finally:
        shutil.rmtree(tmp)


whole_run = run


def run(s):
    return pieces(s) if "calls" in s else whole_run(s)
