"""Calls of the collapsed variational modules, with their whole states"""
import importlib
import numpy as np, scipy.sparse as ssp
from kit import fix, attempt, dense, whole, sparse
from sidetopics.model.common import DataSet
from sidetopics.model import lda_cvb0, lda_cvb

S = 10 ** 7
MODS = dict(LDA_CVB0=lda_cvb0, LDA_CVB=lda_cvb)
TYPES = dict(f4=np.float32, f8=np.float64)


def vec(a):
    return [fix(v, S) for v in np.asarray(a, dtype=np.float64).ravel()]


def mat(a):
    return [vec(r) for r in np.atleast_2d(np.asarray(a))]


def seen_query(q, second):
    lens = [int(n) for n in np.asarray(q.docLens)]
    W, z = np.asarray(q.W_list), np.asarray(q.z_dnk)
    o = dict(w=[[int(t) + 1 for t in W[d, :n]] for d, n in enumerate(lens)],
             z=[[vec(z[d, i, :]) for i in range(n)] for d, n in enumerate(lens)],
             dk=mat(q.n_dk), kt=mat(q.n_kt), k=vec(q.n_k), vdk=[], vkt=[], vk=[])
    if second:
        o.update(vdk=mat(q.v_dk), vkt=mat(q.v_kt), vk=vec(q.v_k))
    return o


def seen_model(h, m, second):
    o = dict(m=h, trained=m.n_dk is not None, dk=[], kt=[], k=[], vdk=[], vkt=[], vk=[])
    if o["trained"]:
        o.update(dk=mat(m.n_dk), kt=mat(m.n_kt), k=vec(m.n_k))
        if second:
            o.update(vdk=mat(m.v_dk), vkt=mat(m.v_kt), vk=vec(m.v_k))
    return o


def run(s):
    mod, second = MODS[s["kind"]], s["kind"] == "LDA_CVB"
    data = [DataSet(sparse(np.array(c["words"], dtype=c["dtype"]))) for c in s["corpora"]]
    np.random.seed(s["seed"])
    models, queries, qx, events, dead = {}, {}, {}, [], set()
    alpha = s["alpha"] if np.isscalar(s["alpha"]) else np.array(s["alpha"])
    for op in s["ops"]:
        k = op["op"]
        e = dict(op=k, exc="", m=op.get("m", 1), m2=op.get("m2", 0), q=op.get("q", 1), q2=op.get("q2", 1), x=op.get("x", 1), iters=op.get("iters", 0))
        new = None
        if k == "new":
            new, e["exc"] = attempt(mod.newModelAtRandom, data[op["x"] - 1], s["K"], alpha, s["beta"], TYPES[s["dtype"]])
        elif k == "copy":
            new, e["exc"] = attempt(mod.newModelFromExisting, models[op["m"]])
        elif k == "state":
            st, e["exc"] = attempt(mod.newQueryState, data[op["x"] - 1], models[op["m"]])
            if not e["exc"]:
                queries[op["q"]], qx[op["q"]] = st, op["x"] - 1
                e["query"] = seen_query(st, second)
        else:
            plan = mod.newTrainPlan(op["iters"], logFrequency=op["log"])
            D = data[qx[op["q"]]]
            fn = mod.train if k == "train" else mod.query
            r, e["exc"] = attempt(fn, D, models[op["m"]], queries[op["q"]], plan)
            if not e["exc"]:
                new = r[0]
                queries[op["q2"]], qx[op["q2"]] = r[1], qx[op["q"]]
                e["query"] = seen_query(r[1], second)
                if op["q2"] != op["q"]:
                    raise AssertionError
        if new is not None:
            if k in ("train", "query") and op["m2"] != op["m"]:
                dead.add(op["m"])
            models[op["m2"]] = new; dead.discard(op["m2"])
        e["models"] = ([seen_model(op["m2"], new, second)] if new is not None else []) + \
            [seen_model(h, m, second) for h, m in models.items() if h not in dead and (new is None or h != op["m2"])]
        events.append(e)
    a = np.atleast_1d(np.asarray(s["alpha"], dtype=float))
    tokens = sum(sum(map(sum, c["words"])) for c in s["corpora"])
    return dict(init=dict(K=s["K"], T=len(s["corpora"][0]["words"][0]), second=second, single=s["dtype"] == "f4", even=bool(np.all(a == a[0])),
                          alpha=fix(a[0], S), beta=fix(s["beta"], S), tokens=int(tokens), models=8, queries=8,
                          corpora=[dict(words=c["words"]) for c in s["corpora"]]), events=events)
