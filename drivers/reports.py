"""Writes reports of experiments' files, and converts tables of numbers."""
import ast, os, pickle, re, shutil, tempfile
import numpy as np, scipy.sparse as ssp
from kit import BAD, attempt, fix, whole
import sidetopics.run.__main__ as app
import sidetopics.run.report_generator as rg
import sidetopics.run.text_to_numpy as ttn

NAMES = {("ctm", "bouchard"): "ctm/bouchard", ("ctm", "bohning"): "ctm/bohning", ("stm_yv", "bouchard"): "stm-yv/bouchard", ("stm_yv", "bohning"): "stm-yv/bohning"}
SHEETS = {"CtmResultsSheet-Template.ipynb": "ctm", "StmResultsSheet-Template.ipynb": "stm", "StmResultsSheet-Nips-Template.ipynb": "nips"}
EXTRAS = ["article_nocode.tplx", "convert-to-pdf.sh"]
OURS = "SHEET %s, Run with the $bound Bound\ncodePath = $codePath\noutputPathPrefix = $outFilesPrefix\noutputFiles = [ $outputFiles ]\nfrom model.$implName import x\n%%run $$dictPath\n"
BUILTIN = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(rg.__file__)))), "notebooks")


def read(p):
    with open(p, encoding="utf-8") as f:
        return f.read()


def named(f, d, i):
    """The name under which an experiment would save this, or one like it"""
    if f["kind"] in ("ctm", "stm_yv"):
        name = NAMES[f["kind"], f["bound"]]
    else:
        name = f["kind"]
    P = f["p"] if f["kind"] != "ctm" else (0 if f["sized"] else None)
    p = os.path.basename(app.newModelFile(name, f["k"], P, f["fold"], d))
    p = p[:-len("20000101_0000.pkl")] + "%04d%02d%02d_%02d%02d.pkl" % (2014, 1 + i % 12, 1 + i % 28, i % 24, i % 60)
    return p if f["ok"] else {"before": "x" + p, "after": p + ".bak", "part": p[:-4], "dotless": p[:-4] + "xpkl", "undated": p[:-10] + ".pkl", "foldless": re.sub(r"fold_\d+_", "", p)}[f["how"]]


def config(path, folder):
    if os.path.dirname(path) != folder:
        return None
    m = re.match(r"^(ctm)_(bouchard|bohning)_k_(\d+)\.ipynb$", os.path.basename(path)) or re.match(r"^(stm_yv)_(bouchard|bohning)_k_(\d+)_p_(\d+)\.ipynb$", os.path.basename(path))
    return m and dict(kind=m.group(1), bound=m.group(2), k=int(m.group(3)), p=int(m.group(4)) if m.group(1) == "stm_yv" else 0)


ALL = ["AllTags1k.txt", "AllTags81.txt", "Test_Tags1k.dat", "Test_Tags81.txt", "Train_Tags1k.dat", "Train_Tags81.txt"]
NONE = dict(kind="", bound="", k=0, p=0)


def one(pattern, text):
    found = re.findall(pattern, text)
    return found[0] if len(set(found)) == 1 else ""


def sheet(path, folder, outs, names, builtin, before):
    text = read(path)
    c = config(path, folder)
    r = dict(known=c is not None, config=c or NONE, changed=before.get(path) != text)
    if builtin:
        m = [k for f, k in SHEETS.items() if len(read(os.path.join(BUILTIN, f)).splitlines()) == len(text.splitlines())]
        r["sheet"] = m[0] if len(m) == 1 else ""
    else:
        r["sheet"] = one(r"SHEET (\w+)", text)
    listed = re.findall(r"'([^']*)'", one(r"outputFiles = \[(.*)\]", text))
    r.update(title=one(r"Run with the (\w+) Bound", text), module=one(r"from model\.(\w+) import", text), outputs=[names[x] for x in listed if x in names], stray=any(x not in names for x in listed),
             folder=one(r"outputPathPrefix = '([^']*)'", text) == outs + os.path.sep, code=os.path.isdir(os.path.join(one(r"codePath = '([^']*)'", text), "model")))
    return r


def report(s, e, top, outs, names):
    folder = os.path.join(top, "reports")
    builtin = e["builtin"]
    tdir = BUILTIN if builtin else os.path.join(top, "templates")
    before = {os.path.join(folder, f): read(os.path.join(folder, f)) for f in os.listdir(folder)}
    raw = {f: read(os.path.join(outs, f)) for f in os.listdir(outs)}
    had = [os.path.join(folder, f) in before for f in EXTRAS]
    given = None if builtin else tdir
    if e["via"] == "run":
        args = ["--model", e["model"], "--topic-list", ",".join(map(str, e["ks"])), "--report-dir", folder, "--output-dir", outs]
        args += ["--lat-sizes", ",".join(map(str, e["ps"]))] if e["ps"] else []
        args += ["--template-dir", given] if given else []
        args += ["--dataset", e["dataset"]] if e["dataset"] != "tweets" or e["explicit"] else []
        got, exc = attempt(rg.run, args)
        got = {g: -1 for g in got or []} if not exc and isinstance(got, (list, tuple, type(None))) else {"?": -1}
    elif e["kind"] == "ctm":
        got, exc = attempt(rg.generate_reports_ctm, list(e["bounds"]), list(e["ks"]), outs, folder, given)
    else:
        got, exc = attempt(rg.generate_reports_stm_yv, list(e["bounds"]), list(e["ks"]), list(e["ps"]), outs, folder, given, e["dataset"])
    copied = []
    for f, h in zip(EXTRAS, had):
        p = os.path.join(folder, f)
        now = read(p) if os.path.exists(p) else ""
        copied.append("kept" if h and now == before[p] else "copied" if now == read(os.path.join(tdir, f)) else "lost")
    found = [sheet(os.path.join(folder, f), folder, outs, names, builtin, before) for f in sorted(os.listdir(folder)) if f not in EXTRAS]
    back = [] if exc else [dict(config=config(k, folder) or NONE, n=whole(v)) for k, v in got.items()]
    return dict(e, exc=exc, had=had, copied=copied, reports=found, returned=back, touched=raw != {f: read(os.path.join(outs, f)) for f in os.listdir(outs)})


def table(e, top):
    folder = os.path.join(top, e["folder"])
    os.makedirs(folder, exist_ok=True)
    p = os.path.join(folder, e["name"] + "." + e["ext"])
    with open(p, "w") as f:
        text = "".join(line + "\n" for line in e["lines"]) if e["ends"] else "\n".join(e["lines"])
        f.write(text)
    out = p[:-4] + ".npy"
    if os.path.exists(out):
        os.remove(out)
    if e["op"] == "count":
        with open(p + ".cnt", "w") as f:
            f.write("%s%d %s\n" % (" " * e["pad"], e["n"], p))
        got, exc = attempt(ttn.read_wc_l_output, p + ".cnt")
        return dict(e, exc=exc, got=whole(got) if not exc else BAD)
    if e["all"]:                                 # with all of the others
        for f in ALL:
            q = os.path.join(folder, f)
            if q != p:
                with open(q, "w") as h:
                    h.write("1 2\n3 4\n")
            with open(q + ".cnt", "w") as h:
                h.write("%d %s\n" % (e["count"] if q == p else 2, q))
        ttn.InputDir = folder
        _, exc = attempt(ttn.run, [])
    else:
        _, exc = attempt(ttn.save_as_numpy_sparse if e["op"] == "sparse" else ttn.save_as_numpy, p, e["count"])
    with open(p) as f:
        kept = f.read() == text
    made = os.path.exists(out)
    m = None
    if made:
        with open(out, "rb") as f:
            m = pickle.load(f)
    sp = ssp.issparse(m)
    d = m.toarray() if sp else m
    return dict(e, exc=exc, kept=kept, made=made, sparse=bool(sp), type=str(m.dtype) if made else "", rows=[[fix(float(x), 1000) for x in r] for r in d] if made else [])


def run(s):
    top = tempfile.mkdtemp(prefix="reports-")
    try:
        outs = os.path.join(top, "outs")
        for d in ("outs", "reports", "templates"):
            os.mkdir(os.path.join(top, d))
        names = {}
        for i, f in enumerate(s["files"]):
            n = named(f, outs, i)
            names[n] = i + 1
            with open(os.path.join(outs, n), "w") as h:
                h.write("file %d" % i)
        for f, k in SHEETS.items():
            with open(os.path.join(top, "templates", f), "w") as h:
                h.write(OURS % k)
        for f in EXTRAS:
            with open(os.path.join(top, "templates", f), "w") as h:
                h.write("ours " + f)
        for f, old in zip(EXTRAS, s["present"]):
            if old:
                with open(os.path.join(top, "reports", f), "w") as h:
                    h.write("as it was")
        for f in s["stale"]:
            with open(os.path.join(top, "reports", f), "w") as h:
                h.write("stale")
        ev = [report(s, e, top, outs, names) if e["op"] == "report" else table(e, top) for e in s["ops"]]
        return dict(init=dict(files=[dict(kind=f["kind"], bound=f["bound"], k=f["k"], p=f["p"], fold=f["fold"], ok=f["ok"]) for f in s["files"]]), events=ev)
    finally:
        shutil.rmtree(top)
