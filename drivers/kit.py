"""Runs scenarios against the code in /repo and records what happened, one JSON line for each.
Started as: kit.py <driver module> <scenarios.json> <traces.ndjson>"""
import importlib, io, json, os, sys, contextlib, warnings, logging, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import numpy as np

BAD = -2000000001      # stands for a number that isn't a whole number where one is needed
NAN = -2000000002      # not finite
HUGE = 2000000000


def whole(x):
    """A number as a TLC integer"""
    try:
        x = float(x)
    except Exception:
        return BAD
    if not np.isfinite(x):
        return NAN
    if x != round(x):
        return BAD
    if abs(x) > HUGE:
        return BAD
    return int(round(x))


def fix(x, scale):
    """A real as a fixed-point TLC integer"""
    try:
        x = float(x)
    except Exception:
        return BAD
    if not np.isfinite(x):
        return NAN
    x = x * scale
    if abs(x) > HUGE:
        return HUGE if x > 0 else -HUGE
    return int(round(x))


def dense(m):
    if m is None:
        return None
    return np.asarray(m.todense()) if hasattr(m, "todense") else np.asarray(m)


def rows(m):
    """matrix -> list of lists of whole numbers ([] if absent)"""
    if m is None:
        return []
    return [[whole(v) for v in r] for r in dense(m)]


def fixrows(m, scale):
    return [[fix(v, scale) for v in r] for r in dense(m)]


LAYOUT = "plain"       # how the scenario at hand wants its matrices stored, which is of no consequence


def sparse(a, layout=None):
    """A CSR matrix: as usual, with every row's elements in reverse order, or with a stored zero in every row with a gap"""
    import scipy.sparse as ssp
    a, layout = np.asarray(a), layout or LAYOUT
    if layout == "plain" or a.size == 0:
        return ssp.csr_matrix(a)
    ind = [np.flatnonzero(r) for r in a]
    if layout == "zeros":
        ind = [np.sort(np.append(j, np.flatnonzero(r == 0)[:1])) for j, r in zip(ind, a)]
    else:
        ind = [j[::-1] for j in ind]
    m = ssp.csr_matrix((np.concatenate([r[j] for r, j in zip(a, ind)]), np.concatenate(ind).astype(np.int32),
                        np.cumsum([0] + [len(j) for j in ind]).astype(np.int32)), shape=a.shape)
    m.has_sorted_indices = layout == "zeros"
    return m


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def attempt(fn, *a, **kw):
    """(value, "") or (None, exception type name)"""
    try:
        with quiet():
            return fn(*a, **kw), ""
    except (Exception, SystemExit) as e:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return None, type(e).__name__


def main():
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    mod = importlib.import_module(sys.argv[1])
    with open(sys.argv[2]) as f:
        scenarios = json.load(f)
    with open(sys.argv[3], "a") as out:
        for s in scenarios:
            import kit
            kit.LAYOUT = s.get("layout", "plain")
            out.write(json.dumps({"begin": s["id"]}) + "\n"); out.flush()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    t = mod.run(s)
                except (Exception, SystemExit) as e:    # what the code returned could not even be observed
                    if os.environ.get("VERIF_DEBUG"):
                        traceback.print_exc()
                    t = {"died": "Unobservable" + type(e).__name__}
            t["id"] = s["id"]
            out.write(json.dumps({"trace": t}) + "\n"); out.flush()


if __name__ == "__main__":
    main()
