"""Scores of fitted models, with all that is needed to work them out again"""
import importlib
import numpy as np, scipy.sparse as ssp
from kit import fix, attempt, dense, whole
from models import corpus, settings, METHODS
from sidetopics.model.common import DataSet
from sidetopics.model import evals
from sidetopics.model.sklearn.lda_cvb import TopicModel, TopicModelType, ScoreMethod

E8, B, LN2 = 10 ** 8, 10 ** 4, float(np.log(2.0))
TYPES = dict(f4=np.float32, f8=np.float64)


def counts(X):
    return [[whole(v) for v in r] for r in dense(X.words if isinstance(X, DataSet) else X)]


def prob(m):
    return [[fix(v, E8) for v in r] for r in np.atleast_2d(np.asarray(m, dtype=np.float64))]


def bits(v, perp):
    v = float(v)
    return fix(np.log(v) / LN2 if perp else v / LN2, B)


def run(s):
    data = [corpus(c) for c in s["corpora"]]
    cf = s["cfg"]
    kind = cf["kind"]
    mix = kind.startswith("MOM")
    m = TopicModel(**settings(cf), seed=s["seed"])
    module = TopicModelType[kind].value
    m.fit(data[0])
    for op in s["pre"]:
        (m.fit if op == "fit" else m.transform)(data[0])
    events, seed = [], 11

    def reseed():
        m.seed = seed

    for op in s["ops"]:
        k, X = op["op"], data[op["x"] - 1] if op.get("x") else None
        e = dict(op=k, kind=kind, method=op.get("method", ""), perp=op.get("method", "").endswith("perp"), mix=mix, may="", exc="")
        method = METHODS[op["method"]] if op.get("method") else None
        if k in ("given", "inferred", "kept", "completion"):
            if k == "given":
                y = np.array(op["y"], dtype=TYPES[op["ytype"]]) / 8
                r, e["exc"] = attempt(m.score, X, y, method=method)
                ev = X
            elif k == "kept":
                reseed()
                fn = getattr(m, op["by"])
                y, e["may"] = attempt(fn, X, persist_query_state=True)
                if e["may"]:
                    continue
                y = np.array(y)
                r, e["exc"] = attempt(m.score, X, y_query_state=m.query_state_, method=method)
                ev = X
            else:
                ev = X
                if k == "completion":
                    D = X if isinstance(X, DataSet) else DataSet(X)
                    first, ev = D.doc_completion_split()
                    e["first"], e["whole"] = counts(first), counts(D)
                    if not counts(ev) or not any(map(any, counts(ev))):
                        continue
                else:
                    first = X
                reseed()
                y, e["may"] = attempt(m.transform, first)
                reseed()
                r, e["exc"] = attempt(m.score, X, method=method)
            if k != "completion":
                e["op"] = "score"
            if not e["exc"]:
                e.update(words=counts(ev), y=prob(y) if y is not None else [], c=prob(m.components_), value=bits(r, e["perp"]))
        elif k == "point":
            y = np.array(op["y"], dtype=TYPES[op["ytype"]]) / 8
            D = X if isinstance(X, DataSet) else DataSet(X)
            r, e["exc"] = attempt(m.log_likelihood_score_point, D, y)
            if not e["exc"]:
                r = np.asarray(r.sum(axis=1)).ravel() if r.ndim > 1 else np.asarray(r)
                e.update(words=counts(X), y=prob(y), c=prob(m.components_), values=[bits(v, False) for v in r])
        elif k == "module":
            # the module's own function, of documents and their kept state
            reseed()
            D = X if isinstance(X, DataSet) else DataSet(X)
            st = m._model_state
            D = DataSet(D.words.astype(st.dtype))
            y, e["may"] = attempt(m.transform, D, persist_query_state=True)
            if e["may"]:
                continue
            qs, st = m.query_state_, m._model_state
            if op.get("prior") and kind == "MOM_VB":
                p = module.corpusTopicDist(st)
                y = np.tile(np.asarray(p).ravel(), (D.words.shape[0], 1))
                qs = None
            fn = getattr(module, "log_likelihood_point", None) or module.log_likelihood
            r, e["exc"] = attempt(fn, D, st, qs)
            e["op"] = "score"
            if not e["exc"]:
                e.update(words=counts(D), y=prob(y), c=prob(m.components_), value=bits(np.sum(r), False))
        elif k == "refuse":
            reseed()
            y, exc = attempt(m.transform, X, persist_query_state=True)
            if exc:
                continue
            if op["method"].startswith("dc") and not op["withy"] and not op["withqs"]:
                first = (X if isinstance(X, DataSet) else DataSet(X)).doc_completion_split()[0]
                if not all(map(any, counts(first))):
                    continue                # inference may refuse the halves, which is not the point here
            kw = dict(method=method.value if op.get("text") else method)
            if op["withy"]:
                kw["y"] = y
            if op["withqs"]:
                kw["y_query_state"] = m.query_state_
            _, e["exc"] = attempt(m.score, X, **kw)
            e.update(withy=op["withy"], withqs=op["withqs"])
        elif k == "name":
            t = method.value
            t = dict(plain=t, upper=t.upper(), padded="  " + t + "\n", title=t.title())[op["style"]]
            r, e["exc"] = attempt(ScoreMethod.from_str, t)
            e["got"] = next((n for n, v in METHODS.items() if v is r), "")
        elif k == "badname":
            _, e["exc"] = attempt(m.score, X, method=op["text"])
        elif k == "perpfn":
            fn = evals.perplexity_from_like if op["where"] == "evals" else module.perplexity_from_like
            n = op["n"]
            a = -op["k"] * n * LN2
            if op["as"] == "dataset":
                D = DataSet(ssp.csr_matrix(np.array([[n - 1, 1]], dtype=np.int32)))
                r, e["exc"] = attempt(fn, a, D)
            elif op["as"] == "word":
                D = DataSet(ssp.csr_matrix(np.array([[n - 1, 1]], dtype=np.int32)))
                r, e["exc"] = attempt(evals.word_perplexity, lambda d, mo, q: a, None, None, D)
            else:
                r, e["exc"] = attempt(fn, np.float64(a), n)
            e["k"] = op["k"]
            if not e["exc"]:
                e["value"] = bits(r, True)
        events.append(e)
    return dict(init=dict(x=0), events=events)
