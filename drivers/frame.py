"""What public operations on corpora, and evaluations, do to the objects around them"""
import copy, pickle, os, shutil, tempfile
import numpy as np, scipy.sparse as ssp
from kit import attempt, dense
from corpus import parts
from sidetopics.model.common import DataSet
from sidetopics.model import evals


def flat(o):
    """A value that changes when anything in the object does"""
    if o is None:
        return None
    if isinstance(o, DataSet):
        return tuple(flat(x) for x in (o.words, o.feats, o.links, o.word_dict, o.doc_categories, o.order))
    if ssp.issparse(o):
        return ("sparse", type(o).__name__, o.shape, str(o.dtype), o.data.tobytes(), o.indices.tobytes(), o.indptr.tobytes())
    if isinstance(o, np.ndarray):
        return ("array", o.shape, str(o.dtype), o.tolist() if o.dtype == object else o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(flat(x) for x in o))
    return repr(o)


def run(s):
    objs, marks, events = {}, {}, []

    def watch(name, o):
        objs[name] = o
        marks[name] = flat(o)

    words, feats, links, cats, wd = parts(s)
    order = np.array(s["order"], dtype=np.int64) if s["order"] else None
    for n, o in (("words", words), ("feats", feats), ("links", links), ("cats", cats), ("dict", wd), ("order", order)):
        if o is not None:
            watch(n, o)
    rng = np.random.RandomState(s["seed"])
    corpora = []
    for op in s["ops"]:
        k = op["op"]
        e = dict(op=k, on=op.get("on", 0), exc="", touched=[])
        before = {n: flat(o) for n, o in objs.items()}
        made = []
        ds = corpora[op["on"] - 1] if op.get("on") and op["on"] <= len(corpora) else None
        if op.get("on") and ds is None:
            continue
        if k == "construct":
            r, e["exc"] = attempt(DataSet, words, feats, links, word_dict=wd, doc_categories=cats, order=order, limit=op.get("limit", 0))
            made = [r]
        elif k in ("copy", "deepcopy"):
            r, e["exc"] = attempt(ds.copy, deep=k == "deepcopy"); made = [r]
        elif k == "changes":
            r, e["exc"] = attempt(ds.copy_with_changes, words=ds.words); made = [r]
        elif k == "trim":
            r, e["exc"] = attempt(ds.words_with_min_freq, op["min"]); made = [r]
        elif k == "fold":
            r, e["exc"] = attempt(ds.cross_valid_split, op["fold"], op["k"], debug=True); made = r or []
        elif k == "completion":
            r, e["exc"] = attempt(ds.doc_completion_split, min_unique_word_count=op["min"], seed=op["seed"]); made = r or []
        elif k == "splitlinks":
            r, e["exc"] = attempt(ds.link_prediction_split, symmetric=op["symmetric"], seed=op["seed"]); made = r or []
        elif k == "foldlinks":
            r, e["exc"] = attempt(ds.folded_link_prediction_split, op["min"], op["fold"], op["k"]); made = (r or [])[:2]
        elif k == "splitfeature":
            fs = list(op["features"])
            watch("features", fs); before["features"] = flat(fs)
            r, e["exc"] = attempt(ds.split_on_feature, fs); made = (r or [])[:2]
        elif k == "look":
            _, e["exc"] = attempt(lambda: (ds.word_count, ds.doc_lens, len(ds), ds.doc_count, ds.link_count if ds.has_links() else 0,
                                           ds.word_and_link_count, ds.gensim_dictionary(), ds.has_features()))
        elif k == "prune":
            _, e["exc"] = attempt(ds.prune_and_shuffle, op["min"] - .5, op["minLinks"], op["seed"])
        elif k == "intercept":
            _, e["exc"] = attempt(ds.add_intercept_to_feats_if_required)
        elif k == "undirected":
            _, e["exc"] = attempt(ds.convert_to_undirected_graph)
        elif k == "binary":
            _, e["exc"] = attempt(ds.convert_to_binary_link_matrix)
        elif k == "dtypes":
            _, e["exc"] = attempt(ds.convert_to_dtypes, *[np.dtype(x).type for x in op["want"]])
        elif k in ("mrr", "map", "precrec"):
            D, C = op["D"], op["C"]
            exp = ssp.csr_matrix((rng.rand(D, C) < .4).astype(op["want"][0]))
            est = ssp.csr_matrix(np.where((rng.rand(D, C) < .7) | (dense(exp) > 0), rng.permutation(D * C).reshape(D, C) + 1.0, 0).astype("float64"))
            if op.get("unsorted"):
                for m in (exp, est):
                    for d in range(D):
                        a, b = m.indptr[d], m.indptr[d + 1]
                        m.indices[a:b] = m.indices[a:b][::-1].copy(); m.data[a:b] = m.data[a:b][::-1].copy()
                    m.has_sorted_indices = False
            at, groups = list(op["ms"]), [tuple(g) for g in op["groups"]]
            for n, o in (("expected", exp), ("estimated", est), ("cutoffs", at), ("groups", groups)):
                watch(n, o); before[n] = flat(o)
            if k == "precrec":
                _, e["exc"] = attempt(evals.mean_prec_rec_at, exp, est, at=at, groups=groups)
            else:
                _, e["exc"] = attempt(evals.mean_reciprocal_rank if k == "mrr" else evals.mean_average_prec, exp, est)
        else:
            raise ValueError(k)
        for n, o in objs.items():
            now = flat(o)
            if now != before[n]:
                e["touched"].append(n)
        for o in made:
            if o is not None and len(corpora) < 12 and not any(o is c for c in corpora):
                corpora.append(o); watch("corpus%d" % len(corpora), o)
        events.append(e)
    return dict(init=dict(x=0), events=events)
