#!/usr/bin/env python3
"""Mutation testing of a check: tools/mutate.py PROP FILE [-f FUNC,...] [-n N] [-s SEED] [-o LOG]
Makes N small random changes to FILE of the repository (in the given functions only), each in a scratch copy, and
says for each whether the check of PROP notices. A mutant that isn't noticed is printed: it either changes nothing
that the property is about, or shows what the check doesn't look at. Models are checked once only."""
import argparse, os, pickle, random, re, shutil, subprocess, sys, tempfile, hashlib, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = r'''
import sys, os, pickle, hashlib, glob
sys.path.insert(0, %(root)r)
from vlib import core, tlc
real = tlc.model_check
def cached(workdir, **kw):
    h = hashlib.sha256(repr(sorted(kw.items())).encode())
    for f in sorted(glob.glob(os.path.join(%(root)r, "spec", "*"))):
        if os.path.isfile(f): h.update(open(f, "rb").read())
    p = "/tmp/verif-models-" + h.hexdigest()[:24]
    if os.path.exists(p):
        return pickle.load(open(p, "rb"))
    m = real(workdir=workdir, **kw)
    pickle.dump(m, open(p, "wb"))
    return m
tlc.model_check = cached
try:
    sys.exit(core.run(%(prop)r, "quick", %(seed)d))
except tlc.MachineryError as e:
    print(e); sys.exit(2)
'''
RULES = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\*= ", "/= "),
         (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b1\b", "0"), (r"axis ?= ?0", "axis=1"),
         (r"axis ?= ?1", "axis=0"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\.copy\(\)", ""), (r"float64", "float32"),
         (r" and ", " or "), (r" or ", " and "), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\bnot ", ""), (r"\bif ", "if not "),
         (r"//", "/"), (r"int32", "int16"), (r"double", "float"), (r"\[::-1\]", ""), (r"\.5\b", ".25"), (r"\+= ", "= "), (r"range\((\w+)\)", r"range(1, \1)"),
         (r"range\((\w+)\)", r"range(\1 - 1)"), (r"is None", "is not None"), (r"is not None", "is None"), (r"\bexcept \w+", "except KeyError"),
         (r"break", "pass"), (r"continue", "pass"), (r"\bdeep\b", "False"), (r"sort_indices\(\)", "copy()"), (r"abs\(", "("), (r"\.T\b", "")]


def candidates(text, funcs):
    out, inside, doc, name, ind0 = [], not funcs, False, "", 0
    for i, l in enumerate(text.split("\n")):
        m = re.match(r"(\s*)(?:cdef \w+ |cp?def )?(?:def|cdef \w+(?:\[.*?\])?) (\w+) ?\(", l) or re.match(r"(\s*)(?:async )?def (\w+)", l)
        if m and not doc:
            if funcs:
                if m[2] in funcs:
                    inside, ind0 = True, len(m[1])
                elif len(m[1]) <= ind0:
                    inside = False
            continue
        n = l.count("'''") + l.count('"""')
        if doc or n:
            if n % 2: doc = not doc
            continue
        c = l.split("#")[0]
        if not inside or not c.strip() or re.match(r"\s*(print|logging|assert|import|from|raise|@|debugFn|warn)", c) or "print" in c:
            continue
        for r, (a, b) in enumerate(RULES):
            for m in re.finditer(a, c):
                new = c[:m.start()] + m.expand(b) + c[m.end():]
                if new != c:
                    out.append((i, l, new, f"{m[0].strip()} -> {b.strip()}"))
        s = c.strip()
        if re.match(r"[\w.\[\], :]+ [-+*/]?= ", s) and s.count("(") == s.count(")") and s.count("[") == s.count("]") and not s.endswith("\\"):
            if re.match(r"[\w.\[\], :]+ [-+*/]= ", s) or "[" in s.split("=")[0]:
                out.append((i, l, c[:len(c) - len(c.lstrip())] + "pass", "deleted"))
        elif re.match(r"[\w.]+\(.*\)$", s):
            out.append((i, l, c[:len(c) - len(c.lstrip())] + "pass", "deleted"))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("file"); ap.add_argument("-f", default=""); ap.add_argument("-n", type=int, default=10)
    ap.add_argument("-s", type=int, default=1); ap.add_argument("-o", default="/dev/stdout")
    a = ap.parse_args()
    rng = random.Random(f"{a.prop}{a.file}{a.f}{a.s}")
    text = open(os.path.join("/repo", a.file)).read()
    cs = candidates(text, [f for f in a.f.split(",") if f])
    rng.shuffle(cs)
    killed = tried = 0
    used = set()
    for i, old, new, what in cs:
        if tried >= a.n:
            break
        if (i, what) in used:
            continue
        used.add((i, what))
        wt = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        try:
            shutil.copytree("/repo", wt + "/repo", symlinks=True)
            lines = text.split("\n"); lines[i] = new
            open(os.path.join(wt, "repo", a.file), "w").write("\n".join(lines))
            if not a.file.endswith("pyx"):
                try: compile("\n".join(lines), a.file, "exec")
                except SyntaxError: continue
            t0 = time.time()
            try:
                p = subprocess.run([sys.executable, "-c", RUN % dict(root=ROOT, prop=a.prop, seed=1)], env=dict(os.environ, VERIF_REPO=wt + "/repo"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=850)
                rc, out = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, out = 99, ""
            if rc == 2 and "build failed" in out:
                continue
            tried += 1
            clause = re.findall(r"rejected by clause (\w+)", out)
            if rc == 1 and clause:
                killed += 1
                res = "killed " + ",".join(clause[:3])
            else:
                res = f"SURVIVED rc={rc}" if rc == 0 else f"NO ANSWER rc={rc} " + out[-400:]
            with open(a.o, "a") as f:
                f.write(f"{a.prop} {a.file}:{i + 1} [{what}] {res} ({time.time() - t0:.0f}s)\n" + ("" if rc == 1 else f"    - {old.strip()}\n    + {new.strip()}\n"))
        finally:
            shutil.rmtree(wt, ignore_errors=True)
    with open(a.o, "a") as f:
        f.write(f"{a.prop} {a.file}: {killed} of {tried} killed\n")


main()
