"""Expanding a bag of words into tokens, and tallying tokens by topic"""
import numpy as np, scipy.sparse as ssp
from kit import whole, fix, attempt, dense
from sidetopics.model import lda_cvb, lda_cvb0, lda_gibbs, dmr
from sidetopics.model.common import DataSet
import sidetopics.model.lda_cvb_fast as cvb_fast, sidetopics.model.lda_cvb0_fast as cvb0_fast
import sidetopics.model.lda_gibbs_fast as gibbs_fast, sidetopics.model.dmr_fast as dmr_fast

MODS = dict(cvb=lda_cvb, cvb0=lda_cvb0, gibbs=lda_gibbs, dmr=dmr)


def words_of(op):
    m = ssp.csr_matrix(np.array(op["words"], dtype=op["dtype"]))
    if op.get("zeros"):                        # elements which are stored, but zero
        a = np.array(op["words"], dtype=op["dtype"])
        D, T = a.shape
        m = ssp.csr_matrix((a.ravel(), np.tile(np.arange(T, dtype=np.int32), D), np.arange(D + 1, dtype=np.int32) * T), shape=a.shape)
    if op.get("unsorted"):
        ind, dat = m.indices.copy(), m.data.copy()
        for d in range(m.shape[0]):
            sl = slice(m.indptr[d], m.indptr[d + 1])
            ind[sl], dat[sl] = ind[sl][::-1].copy(), dat[sl][::-1].copy()
        m = ssp.csr_matrix((dat, ind, m.indptr.copy()), shape=m.shape)
    if op.get("spread"):                       # a much larger vocabulary, of which only every so many words are used
        m = ssp.csr_matrix((m.data, (m.indices * op["spread"]).astype(np.int32), m.indptr), shape=(m.shape[0], (m.shape[1] - 1) * op["spread"] + 1))
    return m


def unspread(a, op):
    n = op.get("spread") or 1
    return [v // n if v >= 0 and v % n == 0 else -1 for v in ints(a)]


def ints(a):
    return [whole(v) for v in np.asarray(a).ravel()]


def run(s):
    return dict(init=dict(x=0), events=[one(op) for op in s["ops"]])


def one(op):
    e, k = dict(op), op["op"]
    if k == "wordlist":
        m = words_of(op)
        before = m.copy()
        r, e["exc"] = attempt(MODS[op["impl"]].toWordList, m)
        if not e["exc"]:
            e["lens"], e["toks"] = ints(r[1]), [unspread(x, op) for x in np.asarray(r[0])]
            e["touched"] = (before != m).nnz > 0
    elif k == "flatten":
        m = words_of(op)
        before = m.copy()
        r, e["exc"] = attempt((gibbs_fast if op["impl"] == "gibbs" else dmr_fast).flatten, m)
        if not e["exc"]:
            e["lens"], e["flat"] = ints(r[1]), unspread(r[0], op)
            e["touched"] = (before != m).nnz > 0
    elif k == "query":
        mod = MODS[op["impl"]]
        m = words_of(op)
        feats = ssp.csr_matrix(np.ones((m.shape[0], 2)))
        def make():
            np.random.seed(op["seed"])
            ds = DataSet(m, feats=feats)
            model = mod.newModelAtRandom(ds, op["K"])
            return mod.newQueryState(ds, model)
        before = dense(m).copy()
        q, e["exc"] = attempt(make)
        if not e["exc"]:
            e["lens"] = ints(q.docLens)
            if op["impl"] in ("gibbs", "dmr"):
                e["flat"], e["z"] = ints(q.w_list), ints(q.z_list)
            else:
                e["toks"] = [ints(x) for x in np.asarray(q.W_list)]
                # what was assigned to each token adds up to one
                z = np.asarray(q.z_dnk)
                e["mass"] = [[fix(z[d, n].sum(), 10000) for n in range(int(l))] for d, l in enumerate(q.docLens)]
                e["ndk"] = [[fix(v, 10000) for v in r] for r in np.asarray(q.n_dk)]
                e["nkt"] = [[fix(v, 10000) for v in r] for r in np.asarray(q.n_kt)]
                e["nk"] = [fix(v, 10000) for v in np.asarray(q.n_k)]
            e["touched"] = not np.array_equal(before, dense(m))
    elif k == "counts":
        toks, T, K = op["toks"], op["T"], op["K"]
        lens = np.array([len(t) for t in toks], dtype=np.int32)
        N = max(1, lens.max()) + op["slack"]
        W = np.zeros((len(toks), N), dtype=np.int32)
        z = np.full((len(toks), N, K), .5, dtype=op["dtype"])
        for d, t in enumerate(toks):
            W[d, :len(t)] = t
            for n in range(len(t)):
                z[d, n] = np.array(op["z"][d][n]) / 8.0
        r, e["exc"] = attempt((cvb_fast if op["impl"] == "cvb" else cvb0_fast).calculateCounts, W, lens, z, T)
        if not e["exc"]:
            r = [np.asarray(x, dtype=np.float64) for x in r]
            e["ndk"], e["nkt"], e["nk"] = [[whole(v * 8) for v in x] for x in r[0]], [[whole(v * 8) for v in x] for x in r[1]], [whole(v * 8) for v in r[2]]
            e["vdk"], e["vkt"], e["vk"] = ([], [], []) if op["impl"] == "cvb0" else \
                ([[whole(v * 64) for v in x] for x in r[3]], [[whole(v * 64) for v in x] for x in r[4]], [whole(v * 64) for v in r[5]])
    elif k == "tally":
        toks = op["toks"]
        lens = np.array([len(t) for t in toks], dtype=np.int32)
        w = np.array([v for t in toks for v in t], dtype=np.uint16)
        z = np.array([v for t in op["topic"] for v in t], dtype=np.uint8)
        ndk, nkt, nk = np.zeros((len(toks), op["K"]), np.int32 if op["impl"] == "gibbs" else np.uint16), np.zeros((op["K"], op["T"]), np.int32), np.zeros(op["K"], np.int32)
        _, e["exc"] = attempt((gibbs_fast if op["impl"] == "gibbs" else dmr_fast).sumSuffStats, w, z, lens, ndk, nkt, nk)
        e["ndk"], e["nkt"], e["nk"] = [ints(x) for x in ndk], [ints(x) for x in nkt], ints(nk)
    else:
        raise ValueError(k)
    return e
