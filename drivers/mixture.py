"""Runs of the mixtures of multinomials, and the same runs one step at a time"""
import numpy as np, scipy.sparse as ssp
from kit import fix, attempt, whole, sparse
from sidetopics.model.common import DataSet
from sidetopics.model import mom_em, mom_gibbs

S, E8 = 10 ** 6, 10 ** 8


def mat(a, s=S):
    return [[fix(v, s) for v in r] for r in np.asarray(a)]


def vec(a, s=S):
    return [fix(v, s) for v in np.asarray(a)]


def dataset(words, dtype):
    return DataSet(sparse(np.array(words, dtype=dtype)))


def params(m):
    return dict(c=vec(m.corpusTopicDistParam), w=mat(m.wordDistParam))


def state(m, q):
    return dict(params(m), z=mat(q.topicDists))


def again(m, q, mod):
    return mod.newModelFromExisting(m), q._replace(docLens=q.docLens.copy(), topicDists=q.topicDists.copy())


def learn(op, data, m, q):
    e = dict(chain=[state(m, q)], iterations=op["iterations"])
    one = mom_em.newTrainPlan(1, logFrequency=0)
    mm, qq = again(m, q, mom_em)
    for i in range(op["iterations"]):
        r, exc = attempt(mom_em.train, data, mm, qq, one)
        if exc:
            return dict(e, exc=exc), None
        mm, qq = r[0], r[1]
        e["chain"].append(state(mm, qq))
    r, exc = attempt(mom_em.train, data, m, q, mom_em.newTrainPlan(op["iterations"], logFrequency=op["log"]))
    if exc:
        return dict(e, exc=exc), None
    return dict(e, run=state(r[0], r[1])), r[0]


def ask(op, data, m, q):
    b = params(m)
    r, exc = attempt(mom_em.query, data, m, q, mom_em.newTrainPlan(op["iterations"]))
    if exc:
        return dict(exc=exc)
    return dict(before=b, run=dict(z=mat(r[1].topicDists)), after=params(r[0]))


def topic(row):
    """The one topic of a document, 0 if it has none or several"""
    k = np.flatnonzero(row)
    return int(k[0]) + 1 if len(k) == 1 and row[k[0]] == 1 else 0


def plan(op, **kw):
    if op["burn"] >= 0:
        kw["burnIn"] = op["burn"]
    if op["thin"] >= 0:
        kw["thinning"] = op["thin"]
    return mom_gibbs.newTrainPlan(op["iterations"], logFrequency=op["log"], **kw)


def sample(op, data, m, q, query):
    p = plan(op)
    e = dict(chain=[], iterations=op["iterations"], burn=op["burn"], thin=op["thin"], before=[], after=[],
             plan=dict(iterations=int(p.iterations), burn=int(p.burnIn), thin=int(p.thinning)))
    one = mom_gibbs.newTrainPlan(1, logFrequency=0, burnIn=0, thinning=1)
    fn = mom_gibbs.query if query else mom_gibbs.train
    mm, qq = again(m, q, mom_gibbs)
    np.random.seed(op["draws"])
    for i in range(p.iterations + (0 if query else p.burnIn)):
        r, exc = attempt(fn, data, mm, qq, one)
        if exc:
            return dict(e, exc=exc), None
        mm, qq = r[0], r[1]
        e["chain"].append(dict(z=[topic(d) for d in qq.topicDists], phi=[] if query else mat(mm.wordDists, E8)))
    if query:
        e["before"] = mat(m.wordDists, E8)
    np.random.seed(op["draws"])
    r, exc = attempt(fn, data, m, q, p)
    if exc:
        return dict(e, exc=exc), None
    if query:
        e["after"] = mat(r[0].wordDists, E8)
    return dict(e, mix=mat(r[1].topicDists), phi=mat(r[0].wordDists, E8)), r[0]


def often(op, data, m, q, K):
    D = len(op["words"])
    powers = K ** np.arange(D)
    seen = np.zeros(K ** D, dtype=np.int64)
    e = dict(held=op["held"], slow=op["slow"], phi=mat(m.wordDists, E8) if op["held"] else [])
    one = mom_gibbs.newTrainPlan(1, logFrequency=0, burnIn=0, thinning=1)
    fn = mom_gibbs.query if op["held"] else mom_gibbs.train
    np.random.seed(op["draws"])

    def sweeps():
        mm, qq = m, q
        for i in range(op["sweeps"]):
            r = fn(data, mm, qq, one)
            mm, qq = r[0], r[1]
            assert (qq.topicDists.sum(axis=1) == 1).all() and (qq.topicDists.max(axis=1) == 1).all()
            if i > 50:
                seen[int((qq.topicDists.argmax(axis=1) * powers).sum())] += 1
    _, exc = attempt(sweeps)
    return dict(e, exc=exc, seen=[int(v) for v in seen])


def sweep(op, data, m, q, K):
    """One sweep from the same assignment, again and again"""
    D = len(op["words"])
    powers = K ** np.arange(D)
    seen = np.zeros(K ** D, dtype=np.int64)
    start = np.eye(K)[np.array(op["z"]) - 1]
    one = mom_gibbs.newTrainPlan(1, logFrequency=0, burnIn=0, thinning=1)
    e = dict(held=True, slow=1, z=op["z"], phi=mat(m.wordDists, E8))
    np.random.seed(op["draws"])

    def sweeps():
        for i in range(op["sweeps"]):
            r = mom_gibbs.query(data, m, q._replace(topicDists=start.copy(), processed=True), one)
            seen[int((r[1].topicDists.argmax(axis=1) * powers).sum())] += 1
    _, exc = attempt(sweeps)
    return dict(e, exc=exc, seen=[int(v) for v in seen])


def topics(op, data, K, T, b):
    z = np.eye(K)[np.array(op["z"]) - 1]
    total = np.zeros((K, T))
    out = np.ndarray((K, T))
    np.random.seed(op["draws"])

    def draws():
        for i in range(op["sweeps"]):
            total[:] += mom_gibbs.sample_dirichlet(data.words, b, z, out)
    _, exc = attempt(draws)
    return dict(exc=exc, z=op["z"], draws=op["sweeps"], mean=mat(total / op["sweeps"]))


def run(s):
    K, T = s["K"], s["T"]
    a = s["alpha"] if np.isscalar(s["alpha"]) else np.array(s["alpha"], dtype=float)
    b = s["beta"] if np.isscalar(s["beta"]) else np.array(s["beta"], dtype=float)
    mod = mom_em if s["model"] == "em" else mom_gibbs
    events, model = [], None
    for op in s["ops"]:
        k = op["op"]
        data = dataset(op["words"], op["dtype"])
        e = dict(op=k, exc="", words=op["words"])
        query = k in ("ask", "query") or op.get("held", False)
        m = model
        if k == "topics":
            e.update(topics(op, data, K, T, b)); events.append(e); continue
        np.random.seed(s["seed"] + len(events))
        if m is None or not (query or op.get("further")):
            m, e["exc"] = attempt(mod.newModelAtRandom, data, K, a, b, np.float64)
        if not e["exc"]:
            q, e["exc"] = attempt(mod.newQueryState, data, m, False)
        if not e["exc"]:
            if k == "learn":
                r, model = learn(op, data, m, q)
            elif k == "ask":
                r = ask(op, data, m, q)
            elif k == "sweep":
                r = sweep(op, data, m, q, K)
            elif k == "often":
                r = often(op, data, m, q, K)
            else:
                r, mm = sample(op, data, m, q, query)
                model = model if query else mm
            e.update(r)
        events.append(e)
        if e["exc"]:
            break
    av = [a] * K if np.isscalar(a) else list(a)
    bv = [b] * T if np.isscalar(b) else list(b)
    return dict(init=dict(K=K, T=T, a=vec(av), b=vec(bv)), events=events)
