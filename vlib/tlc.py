"""Runs TLC: exhaustive checks of the design specifications, and validation of recorded traces."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def _java(module_dir, module, cfg, workers, heap, extra, env, timeout, meta):
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xss16m", f"-Xmx{heap}",
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-deadlock", "-config", cfg] + extra + [os.path.join(module_dir, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=module_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as t:
        out = t.stdout or b""
        return -9, out.decode(errors="replace") if isinstance(out, bytes) else out


STATES = re.compile(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found")
GENERATED = re.compile(r"@@SCN (\{.*\})\"?$")
COVER = re.compile(r"^<(\w+) line .*>: (\d+):(\d+)", re.M)


def unescape(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def _ordered(scenarios):
    """Workers report these in any order, and perhaps repeatedly"""
    return [json.loads(s) for s in sorted({json.dumps(s, sort_keys=True) for s in scenarios})]


def model_check(module, cfg, workdir, workers=8, heap="6g", timeout=600, extra=(), env=None, must_take=()):
    """Exhaustively checks a design specification. Returns dict(states, transitions, scenarios, actions)."""
    meta = tempfile.mkdtemp(dir=workdir)
    t0 = time.time()
    rc, out = _java(SPEC, module, os.path.join(SPEC, cfg), workers, heap,
                    ["-coverage", "1000"] + list(extra), env, timeout, meta)
    shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in STATES.finditer(out):
        pass
    simulate = "-simulate" in extra
    if rc != 0 and not (simulate and rc in (0,)):
        at = max(0, out.find("Error:"))
        raise MachineryError(f"TLC rc={rc} on {module}/{cfg}:\n{out[at:at + 4000]}")
    if m is None and not simulate:
        raise MachineryError(f"no state count from TLC on {module}/{cfg}:\n{out[-3000:]}")
    scenarios = []
    for line in out.splitlines():
        g = GENERATED.search(line.strip())
        if g:
            scenarios.append(json.loads(unescape(g.group(1))))
    actions = {}
    for name, dist, tot in COVER.findall(out):
        actions[name] = max(actions.get(name, 0), int(tot))
    for a in must_take:
        if actions.get(a, 0) == 0:
            raise MachineryError(f"vacuous model: action {a} of {module}/{cfg} is never taken ({actions})")
    n = lambda s: int(s.replace(",", ""))
    return dict(module=module, cfg=cfg, states=n(m.group(2)) if m else 0, transitions=n(m.group(1)) if m else 0,
                scenarios=_ordered(scenarios), actions=actions, wall=round(time.time() - t0, 1))


REJ = re.compile(r"@@T (\d+)")


def _validate_chunk(args):
    module, cfg, chunk, workdir, heap, timeout = args
    """Validates traces one after the other; a trace on which the specification cannot even be
    evaluated (the recorded values have the wrong shape) is rejected on its own."""
    rejected, states, checked = [], 0, 0
    todo = list(chunk)
    errors = 0
    while todo:
        d = tempfile.mkdtemp(dir=workdir)
        src, dst = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        with open(src, "w") as f:
            json.dump({"traces": todo}, f)
        rc, out = _java(SPEC, module, os.path.join(SPEC, cfg), 1, heap, [],
                        {"VTRACE": src, "VOUT": dst}, timeout, os.path.join(d, "meta"))
        m = None
        for m in STATES.finditer(out):
            pass
        if m:
            states += int(m.group(2).replace(",", ""))
        if rc == 0 and os.path.exists(dst):
            with open(dst) as f:
                res = json.load(f)
            if int(res["checked"]) != len(todo):
                raise MachineryError(f"{module}: {res['checked']} of {len(todo)} traces checked")
            rejected += list(res["bad"])
            checked += len(todo)
            shutil.rmtree(d, ignore_errors=True)
            break
        seen = [int(x) for x in REJ.findall(out)]
        if rc == -9 or not seen or "OutOfMemory" in out or "StackOverflow" in out or errors >= 12:
            raise MachineryError(f"TLC rc={rc} on traces of {module}:\n{out[:1500]}\n...\n{out[-2500:]}")
        errors += 1
        i = seen[-1]
        why = re.search(r"(Attempted|The first argument|TLC encountered|Error: Evaluating|Error: In|Error:)[^\n]*(\n[^\n]*){0,3}", out)
        # The traces before i were fine or rejected, but the result file was not written: redo them alone
        good = todo[:i - 1]
        if good:
            r, s, c = _validate_chunk((module, cfg, good, workdir, heap, timeout))
            rejected += r; checked += c
        rejected.append(dict(id=todo[i - 1]["id"], step=0, clause="SpecCannotEvaluate",
                             detail=(why.group(0)[:300] if why else "")))
        checked += 1
        todo = todo[i:]
        shutil.rmtree(d, ignore_errors=True)
    return rejected, states, checked


def validate(module, cfg, traces, workdir, jobs=8, heap="2g", timeout=800):
    """Checks that every recorded trace is a behaviour of the specification.
    Returns (rejections, states, checked)."""
    if not traces:
        return [], 0, 0
    jobs = max(1, min(jobs, (len(traces) + 3) // 4))
    # balance the chunks by size
    sized = sorted(traces, key=lambda t: -len(json.dumps(t)))
    chunks = [[] for _ in range(jobs)]
    for i, t in enumerate(sized):
        chunks[i % jobs].append(t)
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(_validate_chunk, [(module, cfg, c, workdir, heap, timeout) for c in chunks if c]))
    rejected = [r for x in res for r in x[0]]
    return rejected, sum(x[1] for x in res), sum(x[2] for x in res)
