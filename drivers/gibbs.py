"""Runs of the LDA Gibbs sampler, and the same runs one sweep at a time"""
import numpy as np, scipy.sparse as ssp
from kit import fix, attempt, whole, sparse
from sidetopics.model.common import DataSet
from sidetopics.model import lda_gibbs as gibbs

S = 10 ** 6


def mat(a):
    return [[fix(v, S) for v in r] for r in np.asarray(a)]


def place(words, cols, T, dtype):
    m = np.zeros((len(words), T), dtype=dtype)
    m[:, cols] = words
    return DataSet(sparse(m))


def copy(q):
    return q._replace(w_list=q.w_list.copy(), z_list=q.z_list.copy(), docLens=q.docLens.copy())


def topics(z):
    return [int(v) + 1 for v in z]


def run(s):
    T, cols = s["T"], s["cols"]
    at = {t: i + 1 for i, t in enumerate(cols)}
    a = s["alpha"] if np.isscalar(s["alpha"]) else np.array(s["alpha"], dtype=float)
    b = s["beta"] if np.isscalar(s["beta"]) else np.array(s["beta"], dtype=float)
    events, model = [], None
    K = s["K"]
    for op in s["ops"]:
        k = op["op"]
        data = place(op["words"], cols, T, op["dtype"])
        e = dict(op=k, exc="", words=op["words"], before=[], after=[], mix=[], topics=[], samples=0, z=[], chain=[])
        query = k == "query" or op.get("held", False)
        fn = gibbs.query if query else gibbs.train
        if not query:
            model = None
        m = model
        if m is None:
            m, e["exc"] = attempt(gibbs.newModelAtRandom, data, K, a, b, np.float64)
        if not e["exc"]:
            np.random.seed(s["seed"] + 3)
            q, e["exc"] = attempt(gibbs.newQueryState, data, m)
        if e["exc"]:
            events.append(e); break
        e.update(w=[at.get(int(t), 0) for t in q.w_list], z0=topics(q.z_list), lens=[whole(n) for n in q.docLens])
        single = gibbs.newTrainPlan(1, 0, 1)
        if k == "often":
            n = len(q.w_list)
            powers = K ** np.arange(n)
            seen = np.zeros(K ** n, dtype=np.int64)
            gibbs.seed_rng(op["cseed"])
            if query:
                e["phi"] = [[fix(v, 10 ** 8) for v in r] for r in gibbs.wordDists(m)[:, cols]]
            def sweeps():
                mm, qq = m, q
                for i in range(op["sweeps"]):
                    r = fn(data, mm, qq, single)
                    qq = r[1]
                    seen[int((qq.z_list * powers).sum())] += 1
            _, e["exc"] = attempt(sweeps)
            e.update(held=query, seen=[int(v) for v in seen], slow=op["slow"])
            events.append(e); continue
        kw = {}
        if op["burn"] >= 0:
            kw["burnIn"] = op["burn"]
        if op["thin"] >= 0:
            kw["thin"] = op["thin"]
        plan = gibbs.newTrainPlan(op["iterations"], logFrequency=op["log"], **kw)
        e.update(iterations=op["iterations"], burn=op["burn"], thin=op["thin"],
                 plan=dict(iterations=int(plan.iterations), burn=int(plan.burnIn), thin=int(plan.thin)))
        if k == "learn":                # a model to ask, whose training is not looked at
            gibbs.seed_rng(op["cseed"])
            r, e["exc"] = attempt(fn, data, m, q, plan)
            if e["exc"]:
                events.append(e); break
            model = r[0]
            continue
        gibbs.seed_rng(op["cseed"])
        mm, qq = m, copy(q)
        for i in range(plan.iterations):
            r, e["exc"] = attempt(fn, data, mm, qq, single)
            if e["exc"]:
                break
            qq = r[1]
            mm = m if query else r[0]
            e["chain"].append(dict(z=topics(qq.z_list), samples=int(qq.numSamples), mix=mat(qq.topicSum),
                                   topics=[] if query or not op["all"] else mat(r[0].vocabSum[:, cols])))
        if query:
            e["before"] = mat(m.vocabSum[:, cols]) + [[int(m.numSamples)]]
        if not e["exc"]:
            gibbs.seed_rng(op["cseed"])
            r, e["exc"] = attempt(fn, data, m, copy(q), plan)
        if not e["exc"]:
            q2 = r[1]
            e.update(samples=int(q2.numSamples), z=topics(q2.z_list), mix=mat(q2.topicSum))
            if query:
                e["after"] = mat(r[0].vocabSum[:, cols]) + [[int(r[0].numSamples)]]
            else:
                model = r[0]
                if model.numSamples != q2.numSamples:
                    e["samples"] = -1
                e["topics"] = mat(model.vocabSum[:, cols])
        events.append(e)
        if e["exc"]:
            break
    av = [a] * K if np.isscalar(a) else list(a)
    bv = [b] * T if np.isscalar(b) else list(b)
    return dict(init=dict(K=K, T=T, cols=len(cols), a=[fix(v, S) for v in av], b=[fix(bv[c], S) for c in cols], bsum=fix(sum(bv), S)), events=events)
