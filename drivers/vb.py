"""Variational training of LDA: runs of 0, 1, 2... iterations from the same start"""
import numpy as np, scipy.sparse as ssp
from kit import fix, attempt, sparse
from sidetopics.model.common import DataSet
from sidetopics.model import lda_vb_python as vb

S = 10 ** 6


def mat(a, s=S):
    return [[fix(v, s) for v in r] for r in np.asarray(a)]


def vec(a):
    return [fix(v, S) for v in np.asarray(a)]


def state(m, q):
    w = np.asarray(m.wordDists)
    return dict(w=mat(w), f=[[fix(v, 10 ** 9) if v < 1 else 0 for v in r] for r in w], m=mat(q.topicDists))


def again(m, q):
    return vb.newModelFromExisting(m), q._replace(docLens=q.docLens.copy(), topicDists=q.topicDists.copy())


def run(s):
    K, T = s["K"], s["T"]
    a = s["alpha"] if np.isscalar(s["alpha"]) else np.array(s["alpha"], dtype=float)
    b = s["beta"] if np.isscalar(s["beta"]) else np.array(s["beta"], dtype=float)
    events, model = [], None
    for op in s["ops"]:
        k, p = op["op"], op["plan"]
        data = DataSet(sparse(np.array(op["words"], dtype=op["dtype"])))
        e = dict(op=k, exc="", words=op["words"], plan=p, iterations=op["iterations"], states=[], bounds=[])
        m = model
        np.random.seed(s["seed"] + len(events))
        if m is None or (k == "learn" and not op["further"]):
            m, e["exc"] = attempt(vb.newModelAtRandom, data, K, a, b, np.float64)
        if not e["exc"]:
            q, e["exc"] = attempt(vb.newQueryState, data, m)
        if not e["exc"]:
            e["states"].append(state(m, q))
            e["bounds"].append(0)
            for n in range(1, op["iterations"] + 1):
                plan = vb.newTrainPlan(n, logFrequency=op["log"], batchSize=p["size"], rate_delay=p["delay"] / 100, forgetting_rate=p["forget"] / 100)
                mm, qq = (m, q) if n == op["iterations"] else again(m, q)
                r, e["exc"] = attempt(vb.query if k == "ask" else vb.train, data, mm, qq, plan)
                if e["exc"]:
                    break
                e["states"].append(state(r[0], r[1]))
                if k == "learn":
                    v, e["exc"] = attempt(vb.var_bound, data, r[0], r[1])
                    e["bounds"].append(0 if e["exc"] else fix(v / np.log(2.0), 1000))
            if k == "learn" and not e["exc"]:
                model = r[0]
        events.append(e)
        if e["exc"]:
            break
    av = [a] * K if np.isscalar(a) else list(a)
    bv = [b] * T if np.isscalar(b) else list(b)
    return dict(init=dict(K=K, T=T, a=vec(av), b=vec(bv)), events=events)
