"""Choosing users to fill a corpus"""
import copy, os, shutil, tempfile
from kit import attempt, whole
from sidetopics.run import selectusers as su


def pairs(d):
    return [[str(k), whole(v)] for k, v in d.items()]


def table(t):
    return [[str(g), pairs(u)] for g, u in t.items()]


def run(s):
    events = []
    counts = None
    tmp = tempfile.mkdtemp(prefix="users")
    try:
        for op in s["ops"]:
            k = op["op"]
            e = dict(op=k, exc="", table=[], out=[])
            if k == "read":
                path = os.path.join(tmp, "counts.txt")
                with open(path, "w") as f:
                    f.write("".join("%d\t%s\t%s\n" % (l["count"], l["group"], l["file"]) for l in op["lines"]))
                a = [path] + ([op["lo"]] if op["lo"] >= 0 else []) + ([op["hi"]] if op["hi"] >= 0 else [])
                counts, e["exc"] = attempt(su.read_counts, *a)
                e.update(lines=op["lines"], lo=max(op["lo"], 0), hi=op["hi"] if op["hi"] >= 0 else 2000000000)
                if not e["exc"]:
                    e["out"] = table(counts)
            elif k == "share":
                if "table" in op:
                    counts = {g: dict(u) for g, u in op["table"]}
                before = copy.deepcopy(counts)
                e["table"] = table(before)
                share, e["exc"] = attempt(su.select_group_contribs, counts, op["target"])
                e.update(target=op["target"], kept=list(counts.items()) == list(before.items()))
                if not e["exc"]:
                    e["out"] = pairs(share)
            elif k == "choose":
                before = copy.deepcopy(counts)
                given = dict(op["share"]) if "share" in op else share
                was = dict(given)
                e.update(table=table(before), share=pairs(given), apart=op["apart"])
                su.SortTweet = op["sort"]
                out, e["exc"] = attempt(su.select_users, counts, given)
                e.update(kept=counts == before and given == was, out=sorted(str(u) for u in out) if out is not None else [], sort=op["sort"])
            events.append(e)
            if e["exc"]:
                break
    finally:
        shutil.rmtree(tmp)
    return dict(init=0, events=events)
