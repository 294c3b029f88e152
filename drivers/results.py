"""Logs of experiments, read and written again as a table"""
import csv, os, shutil, tempfile
from kit import attempt, whole, fix
from sidetopics.run import reshape_results as rr

S = 10 ** 5
GIVEN = ["0->", "0->3", "3->5", "5->10", "10->"]
GROUPS = ["0->", "0->3", "3->", "3->5", "5->", "5->10", "10->"]
CUTS = ["10", "20", "30", "40", "50", "75", "100", "150", "250", "500"]


def num(v):
    return "%.5f" % (v / S)


def render(s):
    out = []
    for l in s["lines"]:
        k = l["kind"]
        if k in ("blank", "comment", "noise"):
            out.append(l["text"]); continue
        r = s["runs"][l["run"] - 1]
        if k == "title":
            out.append(r["title"])
        elif k == "perp":
            out.append(s["indent"] + "Training perplexity is " + num(r["perp"]) + " ")
        elif k == "mrr":
            out.append(s["indent"] + "Mean reciprocal-rank: " + num(r["mrr"]))
        elif k == "map":
            out.append(s["indent"] + "Mean average-precision: " + num(r["map"]))
        else:
            out.append(s["indent"] + ("Precision" if k == "precs" else "Recall") + s["after"])
            out.append(" | Links | Docs | " + " | ".join(CUTS))
            out.append("-" * 60)
            for g, row in zip(GIVEN, r[k]):
                out.append(" | %s | %s" % (g, " | ".join(["%d" % row[0] if s["whole"] else "%.1f" % row[0]] + [num(v) for v in row[1:]])) + s["bar"])
    return "\n".join(out) + ("\n" if s["newline"] else "")


def tab(t):
    return [[whole(t[g]["DocCount"])] + [fix(t[g][m], S) for m in CUTS] for g in GROUPS]


def run(s):
    tmp = tempfile.mkdtemp(prefix="results")
    events = []
    try:
        a, b = os.path.join(tmp, "in.txt"), os.path.join(tmp, "out.csv")
        with open(a, "w") as f:
            f.write(render(s))
        want = [dict(algorithm=r["algorithm"], K=r["K"], desc=r["desc"], perp=r.get("perp", -S) if "perp" in r["has"] else -S,
                     mrr=r["mrr"] if "mrr" in r["has"] else -S, map=r["map"] if "map" in r["has"] else -S,
                     precs=r["precs"] if "precs" in r["has"] else [], recs=r["recs"] if "recs" in r["has"] else []) for r in s["runs"]]
        res, exc = attempt(rr.read_all_results, a)
        e = dict(op="read", exc=exc, got=[])
        if not exc:
            for al, r in res.items():
                e["got"].append(dict(algorithm=al.algorithm, K=al.topicCount, desc=al.trainingDescription, perp=fix(r.perp, S), mrr=fix(r.mrr, S), map=fix(r.map, S),
                                     precs=tab(r.precs), recs=tab(r.recs), shown=str(al), plain=attempt(al.to_delim_str)[1]))
        events.append(e)
        if not exc:
            _, exc = attempt(rr.write_all_results, b, res)
            e = dict(op="write", exc=exc, rows=[])
            if not exc:
                with open(b, newline="") as f:
                    for r in csv.DictReader(f):
                        e["rows"].append([r["Algor"], r["TopicCount"], r["TrainDesc"], fix(r["MRR"], S), fix(r["MAP"], S), -S if r["Perplexity"] == "" else fix(r["Perplexity"], S),
                                          r["Group"], r["M"], whole(r["DocCount"]), fix(r["Precision"], S), fix(r["Recall"], S), len(r)])
            events.append(e)
    finally:
        shutil.rmtree(tmp)
    return dict(init=want, events=events)
