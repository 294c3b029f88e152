"""Replays histories of corpus operations through the DataSet API"""
import os, pickle, tempfile, shutil
import numpy as np, scipy.sparse as ssp
from kit import whole, rows, attempt, dense, quiet
from sidetopics.model.common import DataSet


def cat_code(c):
    if isinstance(c, (list, tuple, np.ndarray)):
        return sum(cat_code(x) * 1000 ** i for i, x in enumerate(c))
    return int(str(c).strip()[1:])


def word_code(w):
    return int(str(w)[1:])


def links_of(ds):
    return ds.links


def observe(ds):
    if ds is None:
        return {}
    w, f, l = ds.words, ds.feats, ds.links
    return dict(order=[whole(o) for o in np.asarray(ds.order).ravel()], words=rows(w), feats=rows(f), links=rows(l),
                cats=[] if ds.doc_categories is None else [cat_code(c) for c in ds.doc_categories],
                dict=[] if ds.word_dict is None else [word_code(x) for x in ds.word_dict],
                hasF=f is not None, hasL=l is not None, hasC=ds.doc_categories is not None,
                hasD=ds.word_dict is not None, ncols=0 if l is None else int(l.shape[1]),
                len=len(ds), docCount=int(ds.doc_count), lens=[whole(x) for x in np.asarray(ds.doc_lens).reshape(-1)],
                wordCount=whole(ds.word_count), linkCount=whole(ds.link_count) if l is not None else 0)


def mk(m, form, dtype):
    if m is None:
        return None
    a = np.array(m, dtype=dtype).reshape(len(m), -1)
    return ssp.csr_matrix(a) if form == "csr" else a


def parts(s):
    b = s["base"]
    words = mk(b["words"], "csr", s.get("wtype", "float64"))
    feats = mk(b["feats"] or None, s.get("fform", "csr"), s.get("ftype", "float64"))
    links = mk(b["links"] or None, "csr", s.get("ltype", "float64"))
    if s.get("unsorted"):
        for m in (words, links):
            if m is not None:
                for r in range(m.shape[0]):
                    a, z = m.indptr[r], m.indptr[r + 1]
                    m.indices[a:z] = m.indices[a:z][::-1].copy()
                    m.data[a:z] = m.data[a:z][::-1].copy()
                m.has_sorted_indices = False
    cats = None
    if b["cats"]:
        cats = [[f"c{x // 1000 ** i % 1000}" for i in range(3) if i == 0 or x >= 1000 ** i] for x in b["cats"]]
        if all(len(c) == 1 for c in cats):
            cats = [c[0] for c in cats]
        if s.get("cform") == "array" and isinstance(cats[0], str):
            cats = np.array(cats)
    wd = None
    if b["dict"]:
        wd = [f"w{x}" for x in b["dict"]]
        if s.get("dform") == "array":
            wd = np.array(wd)
    return words, feats, links, cats, wd


def ideal(s):
    """The base corpus as the scenario says it is (not by asking the code)"""
    b = s["base"]
    D = len(b["words"])
    return dict(order=list(range(D)), words=b["words"], feats=b["feats"], links=b["links"], cats=b["cats"], dict=b["dict"],
                hasF=bool(b["feats"]), hasL=bool(b["links"]), hasC=bool(b["cats"]), hasD=bool(b["dict"]),
                ncols=len(b["links"][0]) if b["links"] else 0)


def scribble(ds):
    ds.words.data[:] = 77
    for m in (ds.feats, ds.links):
        if m is not None:
            if hasattr(m, "data") and hasattr(m, "indptr"):
                m.data[:] = 77
            else:
                m[:] = 77
    if ds.doc_categories is not None:
        ds.doc_categories[0] = "c7777"
    if ds.word_dict is not None and len(ds.word_dict):
        ds.word_dict[0] = "w7777"
    if ds.order is not None and len(ds.order):
        ds.order[0] = 7777


def run(s):
    ds = None
    events = []
    init = ideal(s)
    for op in s["ops"]:
        e = dict(op)
        e.setdefault("pick", 0)
        e["exc"] = ""
        e["out"] = []
        k = op["op"]
        if k in ("construct", "load"):
            words, feats, links, cats, wd = parts(s)
            order = None if not op["hasOrder"] else np.array(op["order"], dtype=np.int64)
            if k == "construct":
                ds, e["exc"] = attempt(DataSet, words, feats, links, word_dict=wd, doc_categories=cats, order=order,
                                       limit=op["limit"], debug=op.get("debug", False))
            else:
                tmp = tempfile.mkdtemp(prefix="verif-load-")
                try:
                    def put(name, obj):
                        if obj is None:
                            return None
                        p = os.path.join(tmp, name)
                        with open(p, "wb") as f:
                            pickle.dump(obj, f)
                        return p
                    flat = None if cats is None else [x for c in cats for c in [c if isinstance(c, list) else [c]] for x in c[:-1] + [c[-1] + "\n"]]
                    if flat and s.get("openEnd"):
                        flat[-1] = flat[-1].strip()
                    if op.get("orderAsList") and order is not None:
                        order = [int(o) for o in order]
                    ds, e["exc"] = attempt(DataSet.from_files, put("w", words), put("f", feats), put("l", links),
                                           put("d", wd), put("c", flat), order=order, limit=op["limit"])
                finally:
                    shutil.rmtree(tmp)
            e["pick"] = 1
            e["out"] = [observe(ds)]
        elif k == "prune":
            r, e["exc"] = attempt(ds.prune_and_shuffle, op["minWords"] - 0.5, op["minLinks"], op["seed"])
            e["ret"] = [] if r is None else [whole(x) for x in r]
            e["out"] = [observe(ds)] if not e["exc"] else []
            e["pick"] = 1
        elif k == "splitfeature":
            r, e["exc"] = attempt(ds.split_on_feature, op["features"])
            if not e["exc"]:
                e["out"] = [observe(r[0]), observe(r[1])]
                e["ret"] = [whole(x) for x in r[2]]
                if e["pick"]:
                    ds = r[e["pick"] - 1]
        elif k == "fold":
            r, e["exc"] = attempt(ds.cross_valid_split, op["fold"], op["k"], debug=op.get("debug", False))
            if not e["exc"]:
                e["out"] = [observe(r[0]), observe(r[1])]
                if e["pick"]:
                    ds = r[e["pick"] - 1]
        elif k == "completion":
            prop = op["propNum"] / op["propDen"]
            kw = dict(seed=op["seed"], est_prop=prop, debug=op.get("debug", False))
            full, e["excFull"] = attempt(ds.doc_completion_split, min_unique_word_count=0, **kw)
            e["full"] = [observe(x) for x in full] if full else [{"words": []}, {"words": []}]
            r, e["exc"] = attempt(ds.doc_completion_split, min_unique_word_count=op["min"], **kw)
            np.random.seed(len(events))
            np.random.rand(3)
            r2, exc2 = attempt(ds.doc_completion_split, min_unique_word_count=op["min"], **kw)
            if not e["exc"]:
                e["out"] = [observe(r[0]), observe(r[1])] + ([observe(r2[0]), observe(r2[1])] if r2 else [{}, {}])
                if e["pick"]:
                    ds = r[e["pick"] - 1]
        elif k == "splitlinks":
            r, e["exc"] = attempt(ds.link_prediction_split, symmetric=op["symmetric"], seed=op["seed"])
            np.random.seed(len(events))
            r2, exc2 = attempt(ds.link_prediction_split, symmetric=op["symmetric"], seed=op["seed"])
            if not e["exc"]:
                e["out"] = [observe(r[0]), observe(r[1])] + ([observe(r2[0]), observe(r2[1])] if r2 else [{}, {}])
                if e["pick"]:
                    ds = r[e["pick"] - 1]
        elif k == "foldlinks":
            r, e["exc"] = attempt(ds.folded_link_prediction_split, op["min"], op["fold"], op["k"])
            if not e["exc"]:
                e["out"] = [observe(r[0]), observe(r[1])]
                e["ret"] = [whole(x) for x in r[2]]
                if e["pick"]:
                    ds = r[e["pick"] - 1]
        elif k == "words":
            r, e["exc"] = attempt(ds.words_with_min_freq, op["min"])
            e["out"] = [observe(r)]
            e["pick"] = 1
            ds = r if not e["exc"] else ds
        elif k == "intercept":
            r, e["exc"] = attempt(ds.add_intercept_to_feats_if_required)
            e["ret"] = bool(r)
            e["out"] = [observe(ds)]
            e["pick"] = 1
        elif k == "undirected":
            _, e["exc"] = attempt(ds.convert_to_undirected_graph)
            e["out"] = [observe(ds)]
            e["pick"] = 1
        elif k == "binary":
            _, e["exc"] = attempt(ds.convert_to_binary_link_matrix)
            e["out"] = [observe(ds)]
            e["pick"] = 1
        elif k == "copy":
            r, e["exc"] = attempt(ds.copy, deep=op["deep"])
            e["out"] = [observe(r)]
            if op["deep"] and not e["exc"]:
                if op["scribbleOn"] == "copy":
                    scribble(r)
                    e["out"].append(observe(ds))
                else:
                    scribble(ds)
                    e["out"].append(observe(r))
                    ds = r
            elif not e["exc"]:
                ds = r
            e["pick"] = 1
        elif k == "changes":
            w = ds.words.copy()
            w.data[:] = w.data + 1
            e["words"] = rows(w)
            r, e["exc"] = attempt(ds.copy_with_changes, words=w)
            e["out"] = [observe(r)]
            e["pick"] = 1
            ds = r if not e["exc"] else ds
        elif k == "gensim":
            r, e["exc"] = attempt(ds.gensim_dictionary)
            if not e["exc"]:
                e["docs"] = int(r.num_docs)
                e["dfs"] = [int(r.dfs.get(w, 0)) for w in range(ds.words.shape[1])]
        elif k == "dtypes":
            if op["one"]:
                _, e["exc"] = attempt(ds.convert_to_dtype, np.dtype(op["want"][0]).type)
                e["want"] = [op["want"][0]] * 3
            else:
                _, e["exc"] = attempt(ds.convert_to_dtypes, *[np.dtype(x).type for x in op["want"]])
            e["got"] = [str(ds.words.dtype), "" if ds.feats is None else str(ds.feats.dtype),
                        "" if ds.links is None else str(ds.links.dtype)]
            e["out"] = [observe(ds)]
            e["pick"] = 1
        else:
            raise ValueError(k)
        events.append(e)
        if e["exc"] and k in ("construct", "load"):
            break
        if e["exc"]:
            break
    return dict(init=init, events=events)
