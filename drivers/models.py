"""Histories of calls on several estimators (TopicModel) which share a process"""
import numpy as np, scipy.sparse as ssp
from kit import fix, attempt, dense, quiet, sparse
from sidetopics.model.common import DataSet
from sidetopics.model.sklearn.lda_cvb import TopicModel, ScoreMethod, TrainingStyleTypes

SCALE = 10 ** 6
METHODS = {"ll": ScoreMethod.LogLikelihoodPoint, "perp": ScoreMethod.PerplexityPoint,
           "ell": ScoreMethod.LogLikelihoodBoundOrSampled, "eperp": ScoreMethod.PerplexityBoundOrSampled,
           "dcll": ScoreMethod.DocCompletionLogLikelihoodPoint, "dcperp": ScoreMethod.DocCompletionPerplexityPoint}


def corpus(c):
    a = np.array(c["words"], dtype=c["dtype"])
    if c.get("form") == "dense":
        return np.array(a)
    m = sparse(a, c.get("layout", "plain"))
    if c.get("form") == "matrix":
        return m
    if not c.get("extras"):
        return DataSet(m)
    D, T = a.shape
    return DataSet(m, feats=ssp.csr_matrix(np.arange(1, 2 * D + 1).reshape(D, 2) % 3 * 1.0) if c["extras"] == "all" else None, links=ssp.csr_matrix(np.tri(D, D)),
                   order=np.arange(D)[::-1].copy() + 3, doc_categories=np.arange(D) % 2, word_dict=["w%d" % t for t in range(T)])


def parts(o):
    """every array that makes up an argument of the caller's"""
    if isinstance(o, DataSet):
        for n in ("words", "feats", "links", "order", "doc_categories", "word_dict"):
            v = getattr(o, n, None)
            if v is not None:
                yield from parts(v)
    elif ssp.issparse(o):
        yield np.asarray(o.shape); yield o.data; yield o.indices; yield o.indptr
    elif o is not None:
        yield np.asarray(o)


def mark(o):
    return [(str(p.dtype), p.shape, p.tobytes()) for p in parts(o)]


class Book:
    """Numbers for arrays: equal arrays (but for rounding) have the same number"""
    def __init__(self):
        self.arrays = []

    def number(self, a):
        a = np.asarray(a)
        for i, b in enumerate(self.arrays):
            if a.shape == b.shape and np.allclose(a, b, rtol=1e-6 if a.dtype == np.float32 else 1e-9, atol=1e-9, equal_nan=True):
                return i + 1, False
        self.arrays.append(np.array(a))
        return len(self.arrays), True


def settings(c):
    kw = dict(kind=c["kind"], n_components=c["K"], iterations=c["iters"], query_iterations=c["qiters"])
    if c.get("alpha") is not None:
        kw["doc_topic_prior"] = np.array(c["alpha"]) if isinstance(c["alpha"], list) else c["alpha"]
    if c.get("beta") is not None:
        kw["topic_word_prior"] = np.array(c["beta"]) if isinstance(c["beta"], list) else c["beta"]
    for n in ("thin", "burn_in", "use_approximations", "log_frequency", "debug", "rate_delay", "forgetting_rate"):
        if n in c:
            kw[n] = c[n]
    if c.get("batch"):
        kw.update(batchSize=c["batch"], rate_algor=TrainingStyleTypes.BLEI_TIME_KAPPA)
    return kw


def run(s):
    book = Book()
    data = [corpus(c) for c in s["corpora"]]
    handles, results, events = {}, [], []
    watched = [("corpus%d" % i, d) for i, d in enumerate(data)]
    for c in s["cfgs"]:
        c["_kw"] = settings(c)
        for n in ("doc_topic_prior", "topic_word_prior"):
            if isinstance(c["_kw"].get(n), np.ndarray):
                watched.append((n, c["_kw"][n]))
    marks = [mark(o) for _, o in watched]
    seen = []                                   # arrays handed out by the library, which later calls must leave alone
    for op in s["ops"]:
        e = dict(op=op["op"], h=op["h"], h2=op.get("h2", 0), cfg=op.get("cfg", 0), seed=op.get("seed", 0), x=op.get("x", 0),
                 persist=bool(op.get("persist")), resume=bool(op.get("resume")), iters=op.get("iters", 0),
                 how=op.get("how", ""), method=op.get("method", ""), ref=op.get("ref", 0), exc="", res=0, score=0, rows=[], bare=False)
        k, h = op["op"], op["h"]
        e["resultrows"] = []
        if k == "new":
            m, e["exc"] = attempt(TopicModel, **s["cfgs"][op["cfg"] - 1]["_kw"], seed=op["seed"])
            handles[h] = m
        elif k == "reseed":
            _, e["exc"] = attempt(setattr, handles[h], "seed", op["seed"])
        elif k == "copy":
            handles[op["h2"]], e["exc"] = attempt(handles[h].copy)
        else:
            X = data[op["x"] - 1]
            e["bare"] = not isinstance(X, DataSet)
            kw = {}
            if op.get("iters"):
                kw["iterations"] = op["iters"]
            m = handles[h]
            r = None
            if k in ("fit", "transform", "fit_transform"):
                if op.get("persist"):
                    kw["persist_query_state"] = True
                if op.get("resume"):
                    kw["resume"] = True
                if op.get("persist") is False and op.get("explicit"):
                    kw["persist_query_state"] = False
                r, e["exc"] = attempt(getattr(m, k), X, **kw)
                if k == "fit":
                    e["self"] = r is m or e["exc"] != ""
                    r = None
                else:
                    e["self"] = True
                    if r is not None:
                        e["res"], new = book.number(r)
                        if new:
                            e["resultrows"] = [[fix(v, SCALE) for v in row] for row in np.atleast_2d(r)]
            elif k == "score":
                if op["how"] in ("y", "both"):
                    kw["y"] = results[op["ref"] - 1]
                if op["how"] in ("qs", "both"):
                    kw["y_query_state"] = m.query_state_
                r, e["exc"] = attempt(m.score, X, method=METHODS[op["method"]] if not op.get("text") else METHODS[op["method"]].value, **kw)
                if r is not None:
                    e["finite"] = bool(np.ndim(r) == 0 and np.isfinite(r))
                    e["score"], _ = book.number(np.array([r], dtype=np.float64))
                r = None
            results.append(r)
            if r is not None:
                watched.append(("result%d" % len(results), r)); marks.append(mark(r))
        e.setdefault("self", True); e.setdefault("finite", True)
        e["handles"] = []
        for i in sorted(handles):
            m = handles[i]
            st = dict(h=i, fitted=False, comp=0, comprows=[], kept=m.query_state_ is not None, dists=0, distrows=[])
            c, exc = attempt(lambda: m.components_)
            st["fitted"] = exc == ""
            if st["fitted"]:
                st["comp"], new = book.number(c)
                if new:
                    st["comprows"] = [[fix(v, SCALE) for v in row] for row in np.atleast_2d(c)]
                if not any(c is o for _, o in watched) and s.get("watch", True):
                    watched.append(("components", c)); marks.append(mark(c))
            if st["kept"]:
                import importlib
                from sidetopics.model.sklearn import TopicModelType
                d, exc = attempt(TopicModelType[m.kind].value.topicDists, m.query_state_)
                if exc:
                    st["dists"] = -1
                else:
                    st["dists"], new = book.number(d)
                    if new:
                        st["distrows"] = [[fix(v, SCALE) for v in row] for row in np.atleast_2d(d)]
            e["handles"].append(st)
        e["touched"] = []
        for i, (n, o) in enumerate(watched):
            now = mark(o)
            if now != marks[i]:
                e["touched"].append(n); marks[i] = now
        events.append(e)
    init = dict(cfgs=[dict(id=c["id"], kind=c["kind"], K=c["K"], iters=c["iters"], qiters=c["qiters"]) for c in s["cfgs"]],
                corpora=[dict(id=c["id"], D=len(c["words"]), T=len(c["words"][0]), bare=c.get("form", "dataset") != "dataset",
                              empty=any(not any(r) for r in c["words"])) for c in s["corpora"]],
                handles=max(max(o["h"], o.get("h2", 0)) for o in s["ops"]))
    return dict(init=init, events=events)
