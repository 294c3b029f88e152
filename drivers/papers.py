"""Records of papers and names of authors"""
import io, os, shutil, tempfile
from kit import attempt, whole
from sidetopics.run import arxiv_to_aan as aa
from sidetopics.run import arxiv_author_ids as ids


def codes(s):
    return [ord(c) for c in s]


def words(s):
    return str(s).split()


def written(text):
    """the fields of a record as written"""
    out = []
    for line in text.split("\n"):
        if line:
            k, _, v = line.partition("={")
            out.append([k, v[:-1] if v.endswith("}") else "?" + v])
    return out


def run(s):
    tmp = tempfile.mkdtemp(prefix="papers")
    events = []
    try:
        for op in s["ops"]:
            k = op["op"]
            e = dict(op=k, exc="")
            if k in ("parens", "plain"):
                fn = aa.eliminateParentheses if k == "parens" else aa.unlatex
                v, e["exc"] = attempt(fn, "".join(op["text"]))
                e.update(text=op["text"], out=list(v) if v is not None else [])
            elif k == "name":
                v, e["exc"] = attempt(aa.bibtex_to_acl_author, op["gap"].join(op["words"]) if not op["pad"] else "  " + op["gap"].join(op["words"]) + " ")
                e.update(words=op["words"], low=[w.lower() for w in op["words"]], parts=op["words"][0].split("."), out=str(v))
            elif k == "lines":
                lines = list(op["raw"])
                got = []
                def read():
                    while True:
                        a, b = aa.read_next_key_value(lines)
                        if a is None:
                            return
                        got.append([str(a), str(b)])
                _, e["exc"] = attempt(read)
                e.update(lines=op["lines"], got=got, left=len(lines))
            elif k == "paper":
                path = os.path.join(tmp, op["file"])
                with open(path, "w") as f:
                    f.write(op["text"])
                p, e["exc"] = attempt(aa.read_paper_metadata, path)
                e.update(lines=op["lines"], authors=op["authors"], title=op["title"], venue=op["venue"], id=op["id"], year=op["year"], got=[], out=[])
                e["low"] = [w.lower() for w in op["authors"]]
                if not e["exc"]:
                    e["got"] = dict(id=whole(p.arxiv_id), year=whole(p.year), title=str(p.title), venue="" if p.venue is None else str(p.venue), authors=[words(a) for a in p.authors])
                    f = io.StringIO()
                    _, e["exc"] = attempt(aa.write_paper_metadata, f, p)
                    e["out"] = written(f.getvalue())
            elif k == "ids":
                a, b = os.path.join(tmp, "meta.txt"), os.path.join(tmp, "ids.txt")
                with open(a, "w") as f:
                    for p in op["papers"]:
                        _, e["exc"] = attempt(aa.write_paper_metadata, f, aa.PaperMetadata(arxiv_id=p["id"], title=p["title"], authors=[" ".join(w) for w in p["authors"]], venue=p["venue"] or None, year=p["year"]))
                        if e["exc"]:
                            break
                if not e["exc"]:
                    _, e["exc"] = attempt(ids.run, a, b)
                e.update(authors=[w for p in op["papers"] for w in p["authors"]], low=[[x.lower() for x in w] for p in op["papers"] for w in p["authors"]], out=[])
                if not e["exc"]:
                    with open(b) as f:
                        for line in f.read().split("\n")[:-1]:
                            n, _, a = line.partition("\t")
                            e["out"].append([whole(n), a, codes(a)])
            events.append(e)
            if e["exc"] and k != "paper":
                break
    finally:
        shutil.rmtree(tmp)
    return dict(init=0, events=events)
