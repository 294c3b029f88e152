"""Training (or querying) for n sweeps with various logging, against the same sweeps made one at a time"""
import inspect
import numpy as np, scipy.sparse as ssp
from kit import fix, attempt, sparse
from sidetopics.model.common import DataSet
from sidetopics.model import lda_cvb0, lda_cvb, lda_vb_python, lda_gibbs, mom_em, mom_gibbs
from sidetopics.model.sklearn.lda_cvb import TopicModel, TopicModelType

MODS = dict(LDA_CVB0=lda_cvb0, LDA_CVB=lda_cvb, LDA_VB_PYTHON_IMPL=lda_vb_python, LDA_GIBBS=lda_gibbs, MOM_VB=mom_em, MOM_GIBBS=mom_gibbs)
TYPES = dict(f4=np.float32, f8=np.float64)
S = 10 ** 6


def flat(*arrays):
    return [fix(v, S) for a in arrays for v in np.asarray(a, dtype=np.float64).ravel()]


def seen(kind, m, q, query):
    if kind in ("LDA_CVB0", "LDA_CVB"):
        return flat(q.n_dk, q.n_kt, q.n_k)
    if kind == "LDA_GIBBS":
        return [int(v) for v in q.z_list]
    out = [q.topicDists]
    if not query:
        out += [m.wordDistParam, m.corpusTopicDistParam] if kind == "MOM_VB" else [m.wordDists]
    return flat(*out)


def copies(v):
    """A namedtuple with its arrays copied"""
    return v._replace(**{f: getattr(v, f).copy() for f in v._fields if isinstance(getattr(v, f), np.ndarray)})


def plan(kind, n, f, debug, size):
    kw = dict(logFrequency=f, debug=debug)
    if kind == "LDA_GIBBS":
        kw.update(burnIn=0, thin=1)
    if kind == "MOM_GIBBS":
        kw.update(burnIn=0, thinning=1)
    if kind == "LDA_VB_PYTHON_IMPL":
        kw.update(batchSize=size)
    return MODS[kind].newTrainPlan(n, **kw)


def points(r, N):
    it, bounds, likes = r
    return [dict(label=int(i), bound=fix(b, 1000), perp=fix(np.exp(-v / N), 1000)) for i, b, v in zip(it, bounds, likes)]


def run(s):
    kind, query, size = s["kind"], s["query"], s["size"]
    mod = MODS[kind]
    data = DataSet(sparse(np.array(s["words"], dtype=s["dtype"])))
    N = int(np.sum(s["words"]))
    np.random.seed(s["seed"])
    m = mod.newModelAtRandom(data, s["K"], s["alpha"], s["beta"], TYPES[s["precision"]])
    extra = (False,) if kind.startswith("MOM") else ()
    if query:
        q = mod.newQueryState(data, m, *extra)
        r, exc = attempt(mod.train, data, m, q, plan(kind, 2, 0, False, size))
        assert not exc, exc
        m = r[0]
        data = DataSet(sparse(np.array(s["asked"], dtype=s["dtype"])))
        N = int(np.sum(s["asked"]))
    q = mod.newQueryState(data, m, *extra)
    fn = mod.query if query else mod.train
    silent = query or kind in ("LDA_VB_PYTHON_IMPL", "LDA_GIBBS")

    def reseed():
        np.random.seed(s["seed"] + 1)
        lda_gibbs.seed_rng(s["seed"] + 1)

    reseed()
    mm, qq = copies(m), copies(q)
    chain = [dict(seen=seen(kind, mm, qq, query), perp=0, bound=0, settled=False)]
    for i in range(s["steps"]):
        r, exc = attempt(fn, data, mm, qq, plan(kind, 1, 1, False, size))
        if exc:
            return dict(init=dict(kind=kind), events=[dict(op="run", exc=exc)])
        qq = r[1]
        if kind not in ("LDA_CVB0", "LDA_CVB"):        # whose model is what it was trained on before
            mm = r[0]
        p = points(r[2], N) if not silent else []
        chain.append(dict(seen=seen(kind, r[0], qq, query), perp=p[-1]["perp"] if p else 0, bound=p[-1]["bound"] if p else 0, settled=not p and not silent))
    events = []
    for op in s["runs"]:
        if op["op"] == "twins":
            e = dict(op="twins", exc="", seen=[])
            for f, dbg in op["logs"]:
                t = TopicModel(TopicModelType[kind], s["K"], s["alpha"], s["beta"], iterations=op["n"], seed=s["seed"], log_frequency=f, debug=dbg, **({"batchSize": size} if size else {}))
                _, e["exc"] = attempt(t.fit, data)
                if e["exc"]:
                    break
                y, e["exc"] = attempt(t.transform, data)
                if e["exc"]:
                    break
                e["seen"].append(flat(t.components_, y))
            events.append(e)
            continue
        e = dict(op="run", n=op["n"], f=op["f"], debug=op["debug"], exc="", points=[], seen=[])
        reseed()
        r, e["exc"] = attempt(fn, data, copies(m), copies(q), plan(kind, op["n"], op["f"], op["debug"], size))
        if not e["exc"]:
            e["seen"] = seen(kind, r[0], r[1], query)
            e["points"] = points(r[2], N) if not silent else []
        events.append(e)
    # (the exponential that LDA_CVB uses is a staircase, on which the least of differences can make a step)
    tol, exact = (3, 100000) if s["precision"] == "f8" and kind != "LDA_CVB" else (3000, 1000)
    # what is measured of a query is not reported
    return dict(init=dict(kind="LDA_VB_PYTHON_IMPL" if query and kind != "LDA_GIBBS" else kind, chain=chain, tol=tol, exact=exact), events=events)
