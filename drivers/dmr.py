"""Runs of Dirichlet-multinomial regression, each with all its shorter runs from the same start"""
import numpy as np, scipy.sparse as ssp
from kit import fix, attempt, whole, sparse
from sidetopics.model.common import DataSet
from sidetopics.model import dmr

S = 10 ** 6


def mat(a, s=S):
    return [[fix(v, s) for v in r] for r in np.asarray(a)]


def data_of(op):
    X = np.array(op["feats"], dtype=op.get("ftype", "float64"))
    W = sparse(np.array(op["words"], dtype=np.uint16))
    return DataSet(W, feats=ssp.csr_matrix(X) if op["sparse"] else X)


def fresh(m, q):
    return dmr.newModelFromExisting(m), q._replace(w_list=q.w_list.copy(), z_list=q.z_list.copy(), docLens=q.docLens.copy())


def topics(z):
    return [int(v) + 1 for v in z]


def samples(m):
    c = np.asarray(m.n_dk_samples)
    return [[[int(v) for v in r] for r in c[:, :, i]] for i in range(int(m.numSamples))]


def state(m):
    return mat(m.weights, 10 ** 8) + mat(m.vocabSum) + [[int(m.numSamples), int(m.K), int(m.T)]] + mat(np.atleast_2d(m.vocabPrior))


def run(s):
    K, T = s["K"], s["T"]
    b = s["beta"] if np.isscalar(s["beta"]) else np.array(s["beta"], dtype=float)
    bv = [b] * T if np.isscalar(b) else list(b)
    events, model = [], None
    for op in s["ops"]:
        k = op["op"]
        data = data_of(op)
        e = dict(op=k, exc="", words=op["words"], X=mat(op["feats"]), rungs=[], before=[], after=[], held=k != "train")
        np.random.seed(s["seed"])
        if k == "train" or model is None:
            m, e["exc"] = attempt(dmr.newModelAtRandom, data, K, None, b)
            if not e["exc"]:
                e["fresh"] = mat(m.weights)
                if op["weights"]:
                    m = m._replace(weights=np.array(op["weights"], dtype=float))
        else:
            m = model
        if not e["exc"]:
            q, e["exc"] = attempt(dmr.newQueryState, data, m)
        if e["exc"]:
            events.append(e); break
        e.update(w=[int(t) + 1 for t in q.w_list], z0=topics(q.z_list), lens=[whole(n) for n in q.docLens], W0=mat(m.weights))
        fn = dmr.train if k == "train" else dmr.query
        if op.get("often"):
            e.update(op="often", slow=op["slow"], seen=[], mean=[], phi=[], vmean=[])
            n = op["often"]
            r, e["exc"] = attempt(fn, data, *fresh(m, q), dmr.newTrainPlan(n, 0, 1, n))
            if not e["exc"]:
                e["mean"] = mat(dmr.topicDists(r[1]))
                e["n"] = int(r[1].numSamples)
                if k == "train":
                    c = np.asarray(r[0].n_dk_samples)[:, :, :n].reshape(-1, n).T
                    at, times = np.unique(c, axis=0, return_counts=True)
                    e["seen"] = [[[int(v) for v in a], int(t)] for a, t in zip(at, times)]
                    e["vmean"] = mat(dmr.wordDists(r[0]))
                else:
                    e["phi"] = mat(dmr.wordDists(m), 10 ** 8)
            events.append(e); continue
        kw = {}
        for name, arg in (("burn", "burnIn"), ("thin", "thin"), ("update", "weightUpdateInterval")):
            e[name] = op[name]
            if op[name] >= 0:
                kw[arg] = op[name]
        plan = dmr.newTrainPlan(op["iterations"], debug=op["debug"], **kw)
        burn, last = int(plan.burnIn), int(plan.iterations) - int(plan.burnIn)
        e.update(iterations=op["iterations"], plan=dict(sweeps=last, burn=burn, thin=int(plan.thin), update=int(plan.weightUpdateInterval)))
        if k == "query":
            e["before"] = state(m)
        steps = [last] if op["big"] else list(range(0, last + 1))
        for n in steps:
            mm, qq = fresh(m, q)
            if k == "query":
                mm = m
            r, e["exc"] = attempt(fn, data, mm, qq, plan._replace(iterations=burn + n))
            if e["exc"]:
                break
            m2, q2 = r[0], r[1]
            g = dict(n=n, z=topics(q2.z_list), samples=int(q2.numSamples), mix=mat(q2.topicSum), topics=[], counts=[], weights=[])
            if k == "train":
                g.update(topics=mat(m2.vocabSum), counts=samples(m2), weights=mat(m2.weights))
                if m2.numSamples != q2.numSamples:
                    g["samples"] = -1
            e["rungs"].append(g)
        if not e["exc"]:
            if k == "query":
                e["after"] = state(r[0])
            else:
                model = r[0]
            y, c = dmr.topicDists(q2), dmr.wordDists(m2)
            e.update(y=mat(y, 10 ** 8), c=mat(c, 10 ** 8))
            v, e["exc"] = attempt(dmr.log_likelihood, data, m2, q2)
            if not e["exc"]:
                e["score"] = fix(v / np.log(2), 10 ** 4)
        events.append(e)
        if e["exc"]:
            break
    return dict(init=dict(K=K, T=T, b=[fix(v, S) for v in bv], bsum=fix(sum(bv), S)), events=events)
