"""Recommends similar documents"""
import numpy as np, scipy.sparse as ssp
from kit import attempt, whole, fix, rows, dense, sparse
from frame import flat
from sidetopics.model.common import DataSet
from sidetopics.model import sim_based_rec as sim
from sidetopics.model import lda_vb_python as lda

E8 = 100000000


def corpus(c):
    w = sparse(np.array(c["words"], dtype=c["wtype"]) * np.array(c["repeat"], dtype=c["wtype"])[:, None])
    l = ssp.csr_matrix(np.array(c["links"], dtype=c["ltype"]))
    return DataSet(w, links=l) if w.shape[0] == l.shape[0] else DataSet(w)


def state(o):
    return tuple(flat(x) for x in o) if isinstance(o, tuple) else flat(o)


def scores(m, near):
    """list of lists of [document, score] of what is there"""
    m = ssp.csr_matrix(m)
    out = []
    for r in range(m.shape[0]):
        a, b = m.indptr[r], m.indptr[r + 1]
        out.append([[int(c), fix(np.sqrt(2) / v if near else v, E8)] for c, v in zip(m.indices[a:b], m.data[a:b])])
    return out


def vectors(q, near):
    return [[fix(v, E8) for v in r] for r in np.asarray(q.reps)] if near else []


def run(s):
    near = s["method"] == "lda"
    method = sim.LDA if near else sim.TF_IDF
    np.random.seed(s["seed"])
    data = [corpus(c) for c in s["corpora"]]
    words = [c["words"] for c in s["corpora"]]
    model, q, events = None, {}, []
    for op in s["ops"]:
        k = op["op"]
        e = dict(op=k, exc="", near=near, touched=False)
        marks = [flat(d) for d in data]
        if k == "train":
            m, e["exc"] = attempt(sim.newModelAtRandom, data[0], s["K"], method=method, dtype=np.dtype(s["dtype"]).type)
            if not e["exc"]:
                topics = None
                if near and op["given"]:        # topics that someone has already found
                    lm = m.ldaModel
                    (lm, topics, _), e["exc"] = attempt(lda.train, data[0], lm, lda.newQueryState(data[0], lm), lda.newTrainPlan(op["iterations"]))
                    m = sim.newModelFromExisting(m, lm)
                    before = state(lm), state(topics)
                r, e["exc"] = attempt(sim.train, data[0], m, sim.newQueryState(data[0], m, topics), sim.newTrainPlan(op["iterations"]))
                if not e["exc"]:
                    model, q[1], _ = r
                    if topics is not None:
                        e["touched"] = before != (state(model.ldaModel), state(q[1].ldaTopics))
            x = 1
        elif k == "query":
            x = op["x"]
            before = state(model), state(model.ldaModel), state(q[1])
            r, e["exc"] = attempt(sim.query, data[x - 1], model, sim.newQueryState(data[x - 1], model), sim.newTrainPlan(op["iterations"]))
            if not e["exc"]:
                e["touched"] = before != (state(r[0]), state(r[0].ldaModel), state(q[1]))
                q[x] = r[1]
        elif k == "copy":
            before = state(model), state(model.ldaModel)
            other, e["exc"] = attempt(sim.newModelFromExisting, model)
            if not e["exc"]:
                e["same"] = before == (state(other), state(other.ldaModel))
                attempt(sim.train, data[0], other, sim.newQueryState(data[0], other), sim.newTrainPlan(2))
                other.ldaModel.wordDists[:] = 1
                other.ldaModel.topicPrior[:] = 7
                e["touched"] = before != (state(model), state(model.ldaModel))
            e["x"] = 1; events.append(e)
            continue
        elif k == "refuse":
            r, e["exc"] = attempt(sim.newModelAtRandom, data[0], s["K"], method=op["name"], dtype=np.float64)
            events.append(e)
            continue
        elif k == "link":
            x = op["x"]
            docs = op["docs"] if op["subset"] else None
            c = s["corpora"][x - 1]
            links = ssp.csr_matrix(np.array(c["links"], dtype=c["ltype"]))
            before = state(q[1]), state(q[x]), flat(links)
            n = len(op["docs"])
            full, e["exc"] = attempt(sim.link_probs, model, q[1], q[x], np.full((n,), -5.0), docs)
            mins = None
            if not e["exc"]:
                mins, e["exc"] = attempt(sim.min_link_probs, model, q[1], q[x], links, docs)
            kept = None
            if not e["exc"]:
                m0 = mins.copy()
                kept, e["exc"] = attempt(sim.link_probs, model, q[1], q[x], mins, docs)
                e["touched"] = m0.tobytes() != mins.tobytes()
            e.update(docs=[d + 1 for d in op["docs"]], links=[[j + 1 for j, v in enumerate(r) if v] for r in c["links"]])
            if not e["exc"]:
                e["shape"] = [list(full.shape), list(kept.shape)]
                e["full"] = [[[c + 1, v] for c, v in r] for r in scores(full, near)]
                e["kept"] = [[[c + 1, v] for c, v in r] for r in scores(kept, near)]
                e["mins"] = [dict(none=bool(v == -1), at=fix(np.sqrt(2) / v if near else v, E8)) for v in mins]
                own = np.array(op["own"]) / (1.0 if near else 1000.0)
                if near:
                    own = np.sqrt(2) / (own / 1000.0)
                picked, e["exc"] = attempt(sim.link_probs, model, q[1], q[x], own.astype(s["dtype"]), docs)
                if not e["exc"]:
                    e["picked"] = [[[c + 1, v] for c, v in r] for r in scores(picked, near)]
                    e["own"] = [v * (E8 // 1000) for v in op["own"]]
            e["touched"] = e["touched"] or before != (state(q[1]), state(q[x]), flat(links))
        elif k == "score":
            x = op["x"]
            v, e["exc"] = attempt(sim.log_likelihood, data[x - 1], model, q[x])
            if not e["exc"]:
                e["value"] = fix(float(v) / np.log(2), 10000)
                e["c"] = [[fix(v, E8) for v in r] for r in lda.wordDists(model.ldaModel)] if near else []
                e["y"] = [[fix(v * v, E8) for v in r] for r in np.asarray(q[x].reps)] if near else []
        e["touched"] = e["touched"] or marks != [flat(d) for d in data]
        e["x"] = x
        if not e["exc"]:
            e["reps"], e["to"] = vectors(q[x], near), vectors(q[1], near)
            e["tops"] = [[fix(v, E8) for v in r] for r in lda.topicDists(q[x].ldaTopics)] if near else []
        events.append(e)
        if e["exc"]:
            break
    scaled = [[[v for v in r] for r in w] for w in words]
    total = [[[v * f for v in r] for r, f in zip(c["words"], c["repeat"])] for c in s["corpora"]]
    return dict(init=dict(words=scaled, total=total, dtype=s["dtype"]), events=events)
