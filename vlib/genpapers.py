"""Records of papers"""
FIRST = ["Ann", "B.", "C.D.", "Jean-Luc", "E", "Wei"]
LAST = ["Smith", "Li", "Jones", "Wang", "Anderson", "Brandt", "Sandy", "Iand"]
PART = ["de", "van", "Von", "Mac", "O", "di", "der", "d'"]
SUFF = ["Jr", "jr.", "III", "PhD", "Sr."]
WORDS = ["strings", "and", "branes:", "a", "review", "of", "{N=2}", "Title:", "the", "x", "theory,", "\\'e", "(part", "I)"]


def name(rng):
    u = rng.random()
    n = [rng.choice(FIRST)]
    if u < .12:
        return [rng.choice(LAST)]
    if u < .35:
        n.append(rng.choice(FIRST))
    if rng.random() < .25:
        n.append(rng.choice(PART))
    n.append(rng.choice(LAST))
    if rng.random() < .2:
        n.append(rng.choice(SUFF))
    return n


def dress(rng, shape):
    """words of an author list in the shape of the model's: w, and, commas, parentheses"""
    out, depth = [], 0
    for i, c in enumerate(shape):
        if c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
        if c == "w":
            out.append(rng.choice(["MIT", "and", "Univ.", "Dept,"]) if depth else rng.choice(["Ann", "Wei", "E"] + LAST))
        elif depth and c in (",", "and"):
            out.append(rng.choice([",", "and"]))
        else:
            out.append(c)
    return out


def author_list(rng):
    out = []
    n = rng.choice([1, 1, 2, 3, 4, 6])
    for i in range(n):
        if i:
            out += rng.choice([[","], [","], ["and"], [",", "and"]])
        w = name(rng)
        if len(w) > 1 and rng.random() < .1:
            w[1:1] = ["(", "Nick", ")"]
        out += w
        if rng.random() < .25:
            out += ["(", "MIT", ",", "and", rng.choice(["ITP", "("]), "x", ")"]
            if out[-3] == "(":
                out += [")"]
    return out


def render(rng, words):
    """pieces of text that may be parted by new lines"""
    t = ""
    for i, w in enumerate(words):
        prev = words[i - 1] if i else None
        if i and not (w == "," and rng.random() < .8) and prev != "(" and w != ")":
            if prev == "," and w != "and" and rng.random() < .2:
                pass
            else:
                t += rng.choice([" ", " ", " ", "  "])
        t += w
    return t


def broken(rng, text):
    """the same on several lines: what follows a break begins with spaces"""
    pieces, cur = [], ""
    for i, c in enumerate(text):
        if c == " " and cur.strip() and text[i + 1:].strip() and rng.random() < .08:
            pieces.append(cur.strip()); cur = ""
        else:
            cur += c
    pieces.append(cur.strip())
    return pieces


def line(kind, key="", text=""):
    return dict(kind=kind, key=key, text=text)


def raw(rng, l, keytext=None):
    k = l["kind"]
    if k == "pair":
        return rng.choice(["", "", " "]) + (keytext or rng.choice([l["key"], l["key"].capitalize(), l["key"].upper()])) + rng.choice([": ", ":", " : ", ":  "]) + l["text"] + rng.choice(["", "", "  "]) + "\n"
    if k == "more":
        return rng.choice(["  ", "   ", "\t\t", "      "]) + l["text"] + rng.choice(["", " "]) + "\n"
    return {"blank": rng.choice(["\n", "\n", "   \n"]), "dashes": "-" * rng.choice([15, 30, 78]) + "\n", "marker": "\\\\\n"}[k]


def records(rng, pairs):
    """lines of keys and values"""
    ls = []
    for k, pieces in pairs:
        ls.append(line("pair", k, pieces[0]))
        ls += [line("more", "", p) for p in pieces[1:]]
        if rng.random() < .15:
            ls.append(line(rng.choice(["blank", "dashes"])))
    return ls


def paper(rng, authors=None, lack=None):
    au = authors or author_list(rng)
    title = [rng.choice(WORDS) for _ in range(rng.randint(1, 9))]
    title = [w for w in title if "{" not in w and "}" not in w] or ["x"]
    tp = broken(rng, " ".join(title))
    num = "%02d%02d%03d" % (rng.choice([91, 95, 99, 0, 3]), rng.randint(1, 12), rng.randint(1, 999))
    venue = rng.choice(["", "", "Nucl.Phys. B460 (1996) 335", "JHEP 9812:005,1998"])
    pairs = [("paper", ["hep-th/" + num]), ("date", ["Thu, 18 Jan 1996 10:22:01 GMT   (12kb)"])]
    body = [("title", tp), (rng.choice(["author", "authors"]), broken(rng, render(rng, au)))]
    if lack:
        body = [b for b in body if not b[0].startswith(lack)]
    body.append(("comments", broken(rng, "12 pages, LaTeX: see also the errata")))
    if venue:
        body.append(("journal-ref", [venue]))
    if rng.random() < .4:
        rng.shuffle(body)
    ls = records(rng, pairs + body)
    if rng.random() < .9:
        ls += [line("marker"), line("pair", "title", "not this")]
    text = "-" * 78 + "\n" + "\\\\\n" + "".join(raw(rng, l) for l in ls) + ("  An abstract.\n" if ls[-1]["text"] == "not this" and rng.random() < .5 else "")
    year = int(num[:2])
    return dict(op="paper", file=num + ".abs", text=text, lines=ls, authors=au, title=" ".join(tp), venue=venue.split(" ")[0] if venue else "",
                id=int(num), year=year + 1900 if year >= 90 else year + 2000)


def from_model(rng, m):
    t = m["text"]
    if m["kind"] == "parens":
        return [dict(op="parens", text=t)]
    if m["kind"] == "authors":
        return [paper(rng, dress(rng, t))]
    if m["kind"] == "name":
        return [dict(op="name", words=t, gap=rng.choice([" ", " ", "  "]), pad=rng.random() < .2)]
    ls, n = [], 0
    for k in t:
        n += 1
        ls.append(line(k, "key%d" % n if k == "pair" else "", rng.choice(["v%d" % n, "v: %d" % n, "a  b"]) if k in ("pair", "more") else ""))
    return [dict(op="lines", lines=ls, raw=[raw(rng, l) for l in ls])]


def random_ops(rng):
    ops = [paper(rng) for _ in range(2)]
    if rng.random() < .2:
        ops.append(paper(rng, lack=rng.choice(["title", "author"])))
    for _ in range(3):
        ops.append(dict(op="name", words=name(rng), gap=rng.choice([" ", " ", "  "]), pad=rng.random() < .2))
    ops.append(dict(op="name", words=[rng.choice(["J.Smith", "J.P.Smith", "Smith", "A.B.C.D"])], gap=" ", pad=rng.random() < .3))
    ops.append(dict(op="plain", text=[rng.choice(list("\\\\\\'`^\"Hc~oaxz .")) for _ in range(rng.randint(0, 12))]))
    ops.append(dict(op="parens", text=[rng.choice(list("ab(() )x")) for _ in range(rng.randint(0, 20))]))
    pool = [name(rng) for _ in range(6)]
    ops.append(dict(op="ids", papers=[dict(id=rng.randint(1, 9999), title=rng.choice(["A {b} c", "authors={x}", "t"]), authors=[rng.choice(pool) for _ in range(rng.randint(1, 4))],
                                           venue=rng.choice(["", "JHEP"]), year=rng.randint(1991, 2003)) for _ in range(rng.randint(1, 5))]))
    return ops
