"""Correlated topic models, with and without features: training and querying, whole, in parts, rearranged and again"""
import numpy as np, scipy.sparse as ssp
from kit import fix, attempt, sparse
from sidetopics.model.common import DataSet
from sidetopics.model import ctm, ctm_bohning, ctm_grad_arb, stm_yv, stm_yv_bohning, stm_uv_vecy_bohning
from sidetopics.util.sigmoid_utils import rowwise_softmax

MODS = dict(CTM=ctm, CTM_BOHNING=ctm_bohning, CTM_GRAD=ctm_grad_arb, STM=stm_yv, STM_BOHNING=stm_yv_bohning, STM_UV=stm_uv_vecy_bohning)
TYPES = dict(f4=np.float32, f8=np.float64)
BITS = np.log2(np.e) * 1e5
MODEL_TOPICS = dict(topicMean=(0,), sigT=(0, 1), vocab=(0,), A=(0,), Y=(0,), Ab=(0, 1))


def mat(a, scale):
    return [[fix(v, scale) for v in r] for r in np.atleast_2d(np.asarray(a, dtype=np.float64))]


def copies(v):
    return v._replace(**{f: getattr(v, f).copy() for f in v._fields if isinstance(getattr(v, f), np.ndarray)})


def data_of(s, words, feats):
    X = np.array(feats, dtype=TYPES[s["precision"]])
    return DataSet(sparse(np.array(words, dtype=TYPES[s["precision"]])), feats=(ssp.csr_matrix(X) if s["sparse"] else X) if X.size else None)


def held(data):
    out = [np.asarray(data.words.todense()).ravel()]
    if data.feats is not None:
        out.append(np.asarray(data.feats.todense() if ssp.issparse(data.feats) else data.feats).ravel())
    return [fix(v, 1000) for a in out for v in a]


def model_bits(m):
    """All that is in a model, exactly"""
    return [f + " " + np.asarray(getattr(m, f)).astype(np.float64).tobytes().hex() for f in m._fields if isinstance(getattr(m, f), np.ndarray)]


def mixtures(mod, q):
    return mod.topicDists(q) if hasattr(mod, "topicDists") else rowwise_softmax(q.means)


def expected_means(kind, m, data):
    """What documents' means are before any word is seen"""
    D = data.words.shape[0]
    return mat(np.asarray(data.feats.dot(m.A.T)) if kind.startswith("STM") else np.tile(m.topicMean, (D, 1)), BITS)


def look(mod, data, m, q, bound=False):
    v, exc = attempt(mod.log_likelihood, data, m, q)
    if exc:
        raise RuntimeError("likelihood " + exc)
    r = dict(vocab=mat(mod.wordDists(m) if hasattr(mod, "wordDists") else mod.vocab(m) if hasattr(mod, "vocab") else m.vocab, 1e8), mix=mat(mixtures(mod, q), 1e8),
             bits=mat(q.means, BITS), ll=fix(v / np.log(2), 1e4), nats=fix(v, 1e4), perp=fix(np.exp(-v / max(data.word_count, 1)), 1e3), bound=0)
    if bound:
        before = mat(q.means, 1e6)
        b, exc = attempt(mod.var_bound, data, m, q)
        r["bound"] = fix(b, 1e3) if not exc else 0
        r["kept"] = before == mat(q.means, 1e6)
        r["boundexc"] = exc
    return r


def run(s):
    kind = s["kind"]
    mod = MODS[kind]
    data = data_of(s, s["words"], s["feats"])
    dt = TYPES[s["precision"]]
    corpus = held(data)

    def fresh(d):
        np.random.seed(s["seed"])
        kw = dict(K=s["K"], dtype=dt, vocabPrior=s["prior"])
        if kind.startswith("STM"):
            kw.update(P=s["P"], featVar=s["fv"], latFeatVar=s["lfv"])
        m = mod.newModelAtRandom(d, **kw)
        return m, mod.newQueryState(d, m)

    def plan(n, f=0, debug=False):
        return mod.newTrainPlan(n, logFrequency=f, fastButInaccurate=s["diag"], debug=debug)

    def go(d, m, q, *a):
        r, exc = attempt(mod.train, d, copies(m), copies(q), plan(*a))
        return r, exc

    head = dict(kind=kind, prior=fix(s["prior"], 1e6), tol=s["tol"], words=s["words"], diag=s["diag"])
    r, exc = attempt(fresh, data)
    if exc:
        return dict(init=head, events=[dict(op="start", exc=exc)])
    m0, q0 = r
    events = [dict(op="start", exc="", state=look(mod, data, m0, q0))]
    models = []
    for i in range(1, s["steps"] + 1):
        r, exc = go(data, m0, q0, i)
        e = dict(op="sweep", exc=exc)
        if not exc:
            models.append(r[:2])
            e["state"] = look(mod, data, copies(r[0]), copies(r[1]), bound=True)
            e["same"] = held(data) == corpus
        events.append(e)
        if exc:
            return dict(init=head, events=events)
    for op in s["ops"]:
        k = op["op"]
        e = dict(op=k, exc="")
        events.append(e)
        if k == "run":
            r, e["exc"] = go(data, m0, q0, op["n"], op["f"], op["debug"])
            e.update(n=op["n"], f=op["f"], debug=op["debug"])
            if not e["exc"]:
                it, b, ll = r[2]
                e["sizes"] = [len(it), len(b), len(ll)]
                e["points"] = [dict(label=int(i), bound=fix(x, 1e3), nats=fix(y, 1e4)) for i, x, y in zip(it, b, ll)]
                e["state"] = look(mod, data, r[0], r[1])
        elif k == "again":
            mq, e["exc"] = attempt(fresh, data)
            if not e["exc"]:
                r, e["exc"] = go(data, *mq, s["steps"])
            e["n"] = s["steps"]
            if not e["exc"]:
                e["state"] = look(mod, data, r[0], r[1])
        elif k == "resume":
            r, e["exc"] = go(data, m0, q0, op["n"])
            if not e["exc"]:
                r, e["exc"] = go(data, r[0], r[1], op["then"])
            e["n"] = op["n"] + op["then"]
            if not e["exc"]:
                e["state"] = look(mod, data, r[0], r[1])
        elif k == "rearranged":
            pd, pw, pk = (np.array(op[x]) - 1 for x in ("docs", "vocab", "topics"))
            w = np.array(s["words"])[pd][:, pw]
            x = np.array(s["feats"])[pd] if len(s["feats"]) else []
            m, q = copies(m0), copies(q0)
            for f in m._fields:
                v = getattr(m, f)
                if isinstance(v, np.ndarray):
                    for ax in MODEL_TOPICS.get(f, ()):
                        v = np.take(v, pk, axis=ax)
                    if f == "A" and kind.startswith("CTM"):
                        v = np.take(v, pk, axis=1)
                    if f == "vocab":
                        v = v[:, pw]
                    m = m._replace(**{f: np.ascontiguousarray(v)})
            for f in q._fields:
                v = getattr(q, f)[pd]
                q = q._replace(**{f: np.ascontiguousarray(v[:, pk] if v.ndim == 2 else v)})
            d = data_of(s, w, x)
            e["n"] = op["n"]
            r, e["exc"] = go(d, m, q, op["n"])
            if not e["exc"]:
                st = look(mod, d, r[0], r[1])
                back = lambda rows, a, b: [[rows[i][j] for j in np.argsort(b)] for i in np.argsort(a)]
                st["vocab"] = back(st["vocab"], pk, pw)
                st["mix"], st["bits"] = back(st["mix"], pd, pk), back(st["bits"], pd, pk)
                e["state"] = st
        elif k == "copy":
            m = copies(models[-1][0])
            c, e["exc"] = attempt(mod.newModelFromExisting, m)
            if not e["exc"]:
                e["equal"] = model_bits(c) == model_bits(m) and c._fields == m._fields and all(
                    getattr(c, f) == getattr(m, f) for f in m._fields if not isinstance(getattr(m, f), np.ndarray))
                before = model_bits(m)
                _, e["exc"] = attempt(mod.train, data, c, copies(models[-1][1]), plan(2))
                e["apart"] = model_bits(m) == before
        elif k == "query":
            m = models[-1][0]
            asked = data_of(s, op["words"], op["feats"])
            kept = held(asked)
            before = model_bits(m)
            np.random.seed(s["seed"] + 2)
            q, e["exc"] = attempt(mod.newQueryState, asked, m)
            if e["exc"]:
                break
            r, e["exc"] = attempt(mod.query, asked, m, copies(q), plan(op["n"], 0, op["debug"]))
            e.update(n=op["n"], words=op["words"], alone=[], parts=[])
            if e["exc"]:
                break
            e["kept"] = model_bits(m) == before and model_bits(r[0]) == before
            e["same"] = held(asked) == kept
            e["state"] = look(mod, asked, r[0], copies(r[1]))
            e["before"] = expected_means(kind, m, asked)
            if kind != "STM_BOHNING" and op["n"] <= 20:
                for d in range(len(op["words"])):
                    one = data_of(s, [op["words"][d]], [op["feats"][d]] if len(op["feats"]) else [])
                    q1 = q._replace(**{f: getattr(q, f)[d:d + 1].copy() for f in q._fields})
                    a, e["exc"] = attempt(mod.query, one, m, q1, plan(op["n"]))
                    if e["exc"]:
                        break
                    e["alone"].append(mat(mixtures(mod, a[1]), 1e8)[0])
                a = q
                for n in op["parts"]:
                    a, e["exc"] = attempt(mod.query, asked, m, copies(a), plan(n))
                    if e["exc"]:
                        break
                    a = a[1]
                if not e["exc"]:
                    e["parts"] = mat(mixtures(mod, a), 1e8)
        if e["exc"]:
            break
    return dict(init=head, events=events)
