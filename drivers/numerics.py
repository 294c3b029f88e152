"""Overflow-safe numerics"""
import numpy as np, scipy.sparse as ssp
from kit import whole, rows, fix, attempt, dense
from sidetopics.util import overflow_safe as osafe, sigmoid_utils as sig, sparse_elementwise as se, misc, array_utils
import sidetopics.util.se_fast as fast
from matrices import layout

LN2 = float(np.log(2.0))
S = 100000
GONE = -1000          # exponent of something that vanishes


def ln(n, shift, gone):
    return np.array([[float(np.log(v)) + s if v > 0 else s - gone for v in r] for r, s in zip(n, shift)])


def powers(e):
    return np.array([[0.0 if v == GONE else 2.0 ** v for v in r] for r in e])


def target(kind, x):
    if kind == "none":
        return None
    if kind == "inplace":
        return x
    o = np.empty_like(x); o.fill(-3)
    return o


def run(s):
    return dict(init=dict(x=0), events=[one(op) for op in s["ops"]])


def one(op):
    e = dict(op)
    k, dt = op["op"], op.get("dtype", "float64")
    if k == "softmax":
        x = ln(op["n"], op["shift"], 1e4).astype(dt)
        if op["axis"] == "col":
            x = np.ascontiguousarray(x.T)
        x = layout(x, op["layout"])
        out, before = target(op["out"], x), x.copy()
        kw = dict(out=out) if out is not None else {}
        r, e["exc"] = attempt(sig.rowwise_softmax if op["axis"] == "row" else sig.colwise_softmax, x, **kw)
        if not e["exc"]:
            res = r if op["axis"] == "row" else r.T
            e["res"] = [[fix(v, S) for v in row] for row in res]
            e["returnsOut"] = out is None or r is out
            e["touched"] = op["out"] != "inplace" and not np.array_equal(x, before)
    elif k == "lse":
        x = layout(ln(op["n"], op["shift"], 1e4).astype(dt), "C")
        r, e["exc"] = attempt((sig if op["mod"] == "sig" else se).lse, x)
        if not e["exc"]:
            r = np.asarray(r, dtype=np.float64).ravel()
            e["res"] = [fix(np.exp(v - sh), 1000) for v, sh in zip(r, op["shift"])]
    elif k in ("safelog", "xlogx"):
        x = powers(op["e"]).astype(dt)
        before = x.copy()
        if k == "safelog":
            out = target(op["out"], x)
            r, e["exc"] = attempt(osafe.safe_log, x, **(dict(out=out) if out is not None else {}))
        else:
            out = None
            r, e["exc"] = attempt(osafe.safe_x_log_x, x)
        if not e["exc"]:
            r = np.asarray(r, dtype=np.float64)
            if k == "xlogx":
                r = np.where(before > 0, r / np.where(before > 0, before.astype(np.float64), 1), r)
            e["res"] = [[fix(v / LN2, 1000) for v in row] for row in r]
            e["returnsOut"] = out is None or out is x or np.array_equal(out, r.astype(dt))
            e["touched"] = op.get("out") != "inplace" and not np.array_equal(x, before)
    elif k == "log1p":
        reg, v = op["regime"], np.array(op["v"], dtype=np.float64)
        if op["fn"] == "plain":                     # log(1 + y)
            y = dict(exact=2.0 ** v - 1, middle=v, small=2.0 ** -v, half=-1 + 2.0 ** -v)[reg]
            fn = osafe.safe_log_one_plus
        else:                                       # log(1 + exp(y))
            y = dict(exact=np.log(2.0 ** v - 1) if reg == "exact" else 0, big=v * LN2, small=-v * LN2,
                     middle=np.log(v) if reg == "middle" else 0, tiny=-v)[reg]
            if op["fn"] == "wide":
                fn = osafe.safe_log_one_plus_exp_of
            else:
                f = fast.safe_log_one_plus_exp_f8 if dt == "float64" else fast.safe_log_one_plus_exp_f4
                fn = lambda z: np.array([f(float(a)) for a in z])
        y = np.asarray(y).astype(dt)
        before = y.copy()
        r, e["exc"] = attempt(fn, y)
        if not e["exc"]:
            r = np.asarray(r, dtype=np.float64)
            if reg in ("exact", "big", "half"):
                r = r / LN2
            elif reg == "middle":
                r = np.exp(r)
            elif reg == "small":
                r = r * 2.0 ** v
            e["res"] = [fix(a, 1000) for a in r]
            e["touched"] = not np.array_equal(y, before)
    elif k == "scaledsum":
        kk = np.array(op["k"], dtype=np.float64)
        x = np.where(kk > 30, kk * LN2, np.log(2.0 ** np.minimum(kk, 30) - 1))
        x = np.where(kk < 1, -1e4, x).astype(dt)
        r, e["exc"] = attempt(se.scaledSumOfLnOnePlusExp, np.array(op["w"], dtype=dt), x)
        if not e["exc"]:
            e["res"] = fix(r / LN2, 100)
    elif k == "softdot":
        x = np.array([[(v if v != GONE else GONE * 2) + sh for v in row] for row, sh in zip(op["e"], op["shift"])], dtype=np.float64)
        integral = dt.startswith("int")
        if not integral:
            x = x * LN2
        x = layout(x.astype(dt), "C")
        before = x.copy()
        mod = sig if op["mod"] == "sig" else se
        if op["scale"]:
            r, e["exc"] = attempt(sig.scaledSelfSoftDot, x, np.array(op["scale"], dtype=op["sdtype"]))
        else:
            r, e["exc"] = attempt(mod.selfSoftDot, x)
        if not e["exc"]:
            e["res"] = fix(r if integral else r / LN2, 100)
            e["touched"] = not np.array_equal(x, before)
    elif k == "entropy":
        topics = np.array([[2 ** v * m for v in row] for row, m in zip(op["t"], op["mult"])], dtype=dt)
        vocab = np.array([[2.0 ** -v for v in row] for row in op["v"]], dtype="float32" if dt == "float32" else "float64")
        r, e["exc"] = attempt(se.entropyOfDot, topics, vocab)
        if not e["exc"]:
            e["res"] = fix(r / LN2, 1000)
    elif k == "normrows":
        x = layout(np.array(op["n"], dtype=dt), op["layout"])
        r, e["exc"] = attempt(array_utils.normalizerows_ip, x)
        if not e["exc"]:
            e["res"] = [[fix(v, S) for v in row] for row in r]
            e["inplace"] = [[fix(v, S) for v in row] for row in x] == e["res"]
    elif k == "converged":
        r, e["exc"] = attempt(misc.converged, np.array(op["iters"], dtype=op["itype"]), np.array(op["vals"], dtype=np.float64), op["idx"],
                              epsilon=op["eps"], minIters=op["min"])
        e["res"] = bool(r)
    elif k == "clamp":
        arrs = [np.array(a, dtype=d) for a, d in zip(op["arrs"], op["dtypes"])]
        r, e["exc"] = attempt(misc.clamp, *arrs, op["length"])
        if not e["exc"]:
            e["res"] = [[whole(v) for v in a] for a in r]
            e["dtypeSame"] = [str(a.dtype) for a in r] == op["dtypes"]
            for a in r:
                a[:] = -7
            e["touched"] = not all(np.array_equal(a, b) for a, b in zip(arrs, op["arrs"]))
    elif k == "constant":
        r, e["exc"] = attempt(misc.constantArray, tuple(op["shape"]), op["val"], np.dtype(dt))
        if not e["exc"]:
            e["gotShape"], e["vals"], e["dtypeSame"] = list(r.shape), sorted({whole(v) for v in r.ravel()}), str(r.dtype) == dt
    elif k == "todense":
        a = np.array(op["a"], dtype=dt)
        x = dict(array=a, matrix=np.matrix(a), csr=ssp.csr_matrix(a), csc=ssp.csc_matrix(a))[op["form"]]
        r, e["exc"] = attempt(misc.to_dense_array, x)
        if not e["exc"]:
            e["res"], e["plain"] = rows(r), type(r) is np.ndarray and r.ndim == 2
    elif k == "det":
        n = len(op["diag"])
        rs = np.random.RandomState(op["seed"])
        x = np.tril(rs.randint(-3, 4, (n, n)), -1).astype(np.float64) if op["fn"] == "slog" else np.zeros((n, n))
        d = np.array([2.0 ** v for v in op["diag"]])
        x = x * d[np.newaxis, :] / 8            # no pivoting: exact
        x[np.arange(n), np.arange(n)] = d
        if op["fn"] == "safe":
            if op["sign"] == -1:
                x[0] *= -1
            elif op["sign"] == 0:
                x[0] = 0
        x = x.astype(dt)
        fn = dict(slog=osafe.safe_log_det, diag=osafe.lnDetOfDiagMat, safe=osafe.safeDet)[op["fn"]]
        r, e["exc"] = attempt(fn, x)
        if not e["exc"]:
            r = float(r)
            if op["fn"] == "safe":
                e["positive"], e["minute"] = bool(r > 0), bool(r < 1e-30)
                r = np.log(r) if r > 0 else 0.0
            e["res"] = fix(r / LN2, 1000)
    else:
        raise ValueError(k)
    return e
