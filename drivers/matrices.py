"""Vec-transpose and sparse element-wise operations"""
import numpy as np, scipy.sparse as ssp
from kit import whole, rows, fix, attempt, dense
from sidetopics.util import vectrans, sparse_elementwise as se

S = 10000
LN2 = float(np.log(2.0))


def layout(a, form):
    if form == "C":
        return np.ascontiguousarray(a)
    if form == "F":
        return np.asfortranarray(a)
    if form == "strided":
        big = np.zeros((a.shape[0] * 2, a.shape[1] * 2), dtype=a.dtype)
        big[::2, ::2] = a
        return big[::2, ::2]
    raise ValueError(form)


def csr(rws, ncols, dtype):
    ptr, ind, dat = [0], [], []
    for r in rws:
        ind += [c - 1 for c, _ in r]; dat += [v for _, v in r]; ptr.append(len(ind))
    return ssp.csr_matrix((np.array(dat, dtype=dtype), np.array(ind, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=(len(rws), ncols))


def stored(m, scale):
    return [[[int(m.indices[i]) + 1, fix(m.data[i] * scale, S)] for i in range(m.indptr[r], m.indptr[r + 1])] for r in range(m.shape[0])]


def run(s):
    events = []
    for op in s["ops"]:
        e = dict(op)
        k = op["op"]
        if k == "vectrans":
            a = np.array(op["a"], dtype=op["dtype"])
            if op["sparse"]:
                m = ssp.csr_matrix(a)
                if op.get("unsorted"):
                    m = csr([[(int(c) + 1, a[r, c]) for c in reversed(np.nonzero(a[r])[0])] for r in range(a.shape[0])], a.shape[1], op["dtype"])
                fn = vectrans.vec_transpose_csr
            else:
                m = layout(a, op["layout"])
                fn = vectrans.vec_transpose
            before = dense(m).copy()
            out, e["exc"] = attempt(fn, m, op["p"])
            if not e["exc"]:
                back, e["exc"] = attempt(fn, out if op["sparse"] else np.asarray(out), op["p"])
                if not e["exc"]:
                    e["rows"], e["cols"] = int(out.shape[0]), int(out.shape[1])
                    e["out"], e["back"] = rows(out), rows(back)
                    e["dtypeSame"] = out.dtype == a.dtype
                    e["touched"] = not np.array_equal(before, dense(m))
        elif k == "transmatrix":
            a = np.array(op["a"], dtype=np.float64)
            t, e["exc"] = attempt(vectrans.sp_vec_trans_matrix, a.shape)
            v, exc2 = attempt(vectrans.vec, layout(a, op["layout"]))
            if not e["exc"]:
                e["t"] = rows(t)
                e["vec"] = [] if exc2 else [whole(x) for x in np.asarray(v).ravel()]
        elif k == "indices":
            m = csr(op["a"], op["ncols"], "float64")
            r, e["exc"] = attempt(se.csr_indices, m.indptr, m.indices)
            if not e["exc"]:
                e["got"] = [[int(a), int(b)] for a, b in zip(*r)]
            e["want"] = [[i, c - 1] for i, r in enumerate(op["a"]) for c, _ in r]
        else:
            dt = op["dtype"]
            shift = op.get("shift", 0)
            A = csr(op["a"], op["ncols"], dt)
            B = np.array(op["b"], dtype=dt).reshape(len(op["b"]), -1)
            C = np.array(op["c"], dtype=dt) if op["c"] else None
            if shift:
                B = (B * 2.0 ** -shift).astype(dt)
            full = (op["start"], op["end"]) == (0, A.shape[0])
            win = A[op["start"]:op["end"], :]
            out = None
            if op["out"] == "given":
                out = win.copy(); out.data[:] = -5
            elif op["out"] == "inplace":
                out = A
            keep = [x.copy() for x in (A, B) + ((C,) if C is not None else ())]
            kw = {}
            if out is not None:
                kw["out"] = out
            if not full or op.get("sayWindow"):
                kw.update(start=op["start"], end=op["end"])
            if k == "quotient":
                r, e["exc"] = attempt(se.sparseScalarQuotientOfDot, A, B, C, **kw)
            elif k == "normed":
                r, e["exc"] = attempt(se.sparseScalarQuotientOfNormedDot, A, B, C, np.array(op["d"], dtype=dt), **kw)
            elif k == "product":
                r, e["exc"] = attempt(se.sparseScalarProductOfDot, A, B, C, **kw)
            elif k == "direct":
                r, e["exc"] = attempt(se.sparseScalarProductOf, A, B, **kw)
            elif k == "logproduct":
                r, e["exc"] = attempt(se.sparseScalarProductOfSafeLnDot, A, B, C, **kw)
                e["logMin"] = -1022 if dt == "float64" else -126
                e["shift"] = shift
            if not e["exc"]:
                e["res"] = stored(r, 1 / LN2 if k == "logproduct" else 1)
                now = [A, B] + ([C] if C is not None else [])
                same = [np.array_equal(dense(x), dense(y)) for x, y in zip(keep, now)]
                if op["out"] == "inplace":
                    same = same[1:]
                e["touched"] = not all(same)
                e["returnsOut"] = out is None or (r is out and stored(out, 1) == stored(r, 1))
        events.append(e)
    return dict(init=dict(x=0), events=events)
