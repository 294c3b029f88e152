"""Evaluates rankings with the repository's scores"""
import copy
import numpy as np, scipy.sparse as ssp
from kit import fix, attempt, whole
from sidetopics.model import evals

UNITS, DEG = 27720, 60


def matrix(rows, D, C, dtype):
    """rows: for each document a list of (column, value), stored in the order given"""
    ptr, ind, dat = [0], [], []
    for r in rows:
        ind += [c for c, _ in r]; dat += [v for _, v in r]
        ptr.append(len(ind))
    return ssp.csr_matrix((np.array(dat, dtype=dtype), np.array(ind, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=(D, C))


def transform(kind, x):
    return {"plain": float(x), "small": x / 1048576.0, "log": x * 0.5 - 700.0, "square": float(x) ** 3 + 5,
            "negative": float(x) - 500, "centred": float(x) - 30, "close": 0.5 + x * 2.0 ** -50, "minute": x * 2.0 ** -1070,
            "huge": x * 2.0 ** 1000, "half": 1 - (64 - x) * 2.0 ** -52, "close4": 1 + x * 2.0 ** -22, "minute4": x * 2.0 ** -148}[kind]


def snap(*ms):
    return [(m.data.tobytes(), m.indices.tobytes(), m.indptr.tobytes(), m.shape) for m in ms]


def run(s):
    C, D = s["C"], len(s["docs"])
    events = []
    for op in s["ops"]:
        e = dict(op)
        est = matrix([[(c, transform(op["transform"], v)) for c, v in (d["cands"] if op["layout"] == 0 else
                       sorted(d["cands"], key=lambda x: (x[0] * 7919 * op["layout"]) % 101))] for d in s["docs"]], D, C, op["dtype"])
        if op["layout"] == 0:
            est.sort_indices()
        exp = matrix([[(c, 1.0) for c in d["expected"]] for d in s["docs"]], D, C, "float64")
        before = snap(est, exp)
        k = op["op"]
        if k == "mrr":
            r, e["exc"] = attempt(evals.mean_reciprocal_rank, exp, est)
            e["value"] = 0 if e["exc"] else fix(r, 30 * UNITS)
        elif k == "map":
            r, e["exc"] = attempt(evals.mean_average_prec, exp, est)
            e["value"] = 0 if e["exc"] else fix(r, UNITS * DEG)
        else:
            groups = None if not op["giveGroups"] else [tuple(g) for g in op["groups"]]
            at = None if op["at"] == "default" else (op["ms"][0] if op["at"] == "single" else list(op["ms"]))
            g0, a0 = copy.deepcopy(groups), copy.deepcopy(at)
            r, e["exc"] = attempt(evals.mean_prec_rec_at, exp, est, at=at, groups=groups)
            if not op["giveGroups"]:
                e["groups"] = []
            if not e["exc"]:
                p, rc, n = r
                e["prec"] = [dict(group=[int(x) for x in g], values=[fix(v, 100000) for v in vs]) for g, vs in p.items()]
                e["rec"] = [dict(group=[int(x) for x in g], values=[fix(v, 100000) for v in vs]) for g, vs in rc.items()]
                e["counts"] = [dict(group=[int(x) for x in g], n=whole(v)) for g, v in n.items()]
            e["same"] = g0 == groups and a0 == at
        e["touched"] = before != snap(est, exp) or e.get("same") is False
        events.append(e)
    return dict(init=dict(docs=s["docs"]), events=events)
