"""Decides one property: model check the design, replay behaviours into the code, validate the traces."""
import importlib, json, os, random, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import tlc
from .tlc import ROOT, MachineryError

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
MEMORY = 7 << 29          # 3.5 GB, of which drivers need a fraction
KNOWN = os.path.join(ROOT, "known_findings.json")


def build():
    """Rebuilds the compiled extensions from the working tree (cached by content hash)"""
    cmd = [PY, "/opt/vp/build_ext.py"]
    if REPO != "/repo": # a scratch copy with a planted bug, see tools/try_bug.sh
        src = open("/opt/vp/build_ext.py").read().replace('"/repo', '"' + REPO)
        src = src.replace("__file__", "'/opt/vp/build_ext.py'")
        cmd = [PY, "-c", src]
    p = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise MachineryError("build failed:\n" + p.stdout[-3000:])


def _frugal():
    """A driver that eats memory without end is stopped long before the machine is out of it"""
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, MEMORY))


def _drive(args):
    driver, scenarios, workdir, timeout, per_item = args
    """Runs the driver on the scenarios. If the process dies or hangs, the scenario it was in gets a
    trace saying so, and the rest are run in a new process."""
    traces, todo, deaths = [], list(scenarios), 0
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", PYTHONHASHSEED="0", VERIF_REPO=REPO)
    env.pop("PYTHONPATH", None)
    while todo:
        d = tempfile.mkdtemp(dir=workdir)
        src, dst = os.path.join(d, "in.json"), os.path.join(d, "out.ndjson")
        with open(src, "w") as f:
            json.dump(todo, f)
        err = open(os.path.join(d, "err.txt"), "w+")
        p = subprocess.Popen([PY, os.path.join(ROOT, "drivers", "kit.py"), driver, src, dst], cwd=d, env=env,
                             stdout=err, stderr=err, start_new_session=True, preexec_fn=_frugal)
        last_size, last_change, why = -1, time.time(), None
        started = time.time()
        while True:
            try:
                p.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                size = os.path.getsize(dst) if os.path.exists(dst) else 0
                if size != last_size:
                    last_size, last_change = size, time.time()
                if time.time() - last_change > per_item:
                    why = "hang"
                elif time.time() - started > timeout:
                    why = "budget"
                if why:
                    os.killpg(p.pid, 9); p.wait()
                    break
        begun, got = None, []
        if os.path.exists(dst):
            with open(dst) as f:
                for line in f:
                    try:
                        r = json.loads(line)
                    except ValueError:
                        break
                    if "begin" in r:
                        begun = r["begin"]
                    else:
                        got.append(r["trace"]); begun = None
        traces += got
        err.seek(0); text = err.read()[-3000:]; err.close()
        shutil.rmtree(d, ignore_errors=True)
        if why == "budget":
            raise MachineryError(f"driver {driver} ran out of time after {len(got)} of {len(todo)} scenarios")
        if p.returncode == 0:
            if len(got) != len(todo):
                raise MachineryError(f"driver {driver}: {len(got)} of {len(todo)} traces")
            break
        if begun is None and got and p.returncode in (-6, -7, -8, -11):     # memory was damaged earlier on
            begun = got[-1]["id"]
            traces = [t for t in traces if t["id"] != begun]
        if begun is None:
            raise MachineryError(f"driver {driver} failed:\n{text}")
        if why is None and p.returncode > 0:       # a Python exception in the driver itself, not in the code
            raise MachineryError(f"driver {driver} failed on {begun}:\n{text}")
        done = {t["id"] for t in got}
        traces.append({"id": begun, "died": "Hang" if why == "hang" else f"Signal{-p.returncode}"})
        deaths += 1
        done.add(begun)
        todo = [s for s in todo if s["id"] not in done]
        if deaths >= 8 or why == "hang":
            break
    return traces


def drive(driver, scenarios, workdir, jobs=8, timeout=700, per_item=120):
    jobs = max(1, min(jobs, len(scenarios)))
    chunks = [scenarios[i::jobs] for i in range(jobs)]
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(_drive, [(driver, c, workdir, timeout, per_item) for c in chunks]))
    return [t for r in res for t in r]


def known_findings(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def matches(k, scenario, rej):
    return k["clause"] == rej["clause"] and k.get("tag", "") == scenario.get("tag", "")


def run(prop, tier, seed, replay=None):
    t0 = time.time()
    mod = importlib.import_module("props." + prop.lower())
    workdir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        build()
        rng = random.Random(f"{prop}-{seed}")
        layouts = random.Random(f"{prop}-{seed}-layout")
        models, scenarios, batches = [], [], []
        if replay:
            with open(replay) as f:
                r = json.load(f)
            batches = [dict(b, scenarios=[r["scenario"]]) for b in mod.batches(tier, rng, []) if b["name"] == r["batch"]]
        else:
            for spec in mod.models(tier):
                spec = dict(spec)
                label = spec.pop("label", "")
                if "simulate" in spec:
                    n, depth = spec.pop("simulate")
                    spec["extra"] = ["-simulate", f"num={n}", "-depth", str(depth), "-seed", str(seed)]
                m = tlc.model_check(workdir=workdir, **spec)
                m["label"] = label
                models.append(m)
            batches = mod.batches(tier, rng, models)
        total_traces = total_states = 0
        samples, violations, known_hits, per_batch, distinct = [], [], [], {}, set()
        for b in batches:
            scs = b["scenarios"]
            for i, s in enumerate(scs):
                s["id"] = f"{b['name']}-{i}"
                if not replay:
                    s.setdefault("layout", layouts.choice(["plain", "plain", "unsorted", "zeros"]))
            byid = {s["id"]: s for s in scs}
            traces = drive(b["driver"], scs, workdir, timeout=b.get("timeout", 700), per_item=b.get("per_item", 120))
            bad = []
            live = []
            for t in traces:
                if "died" in t:
                    bad.append(dict(id=t["id"], step=0, clause="ProcessDied" + t["died"]))
                else:
                    live.append(t)
            rej, states, checked = tlc.validate(b["module"], b["cfg"], live, workdir, heap=b.get("heap", "2g"))
            bad += rej
            total_traces += checked + len(traces) - len(live)
            total_states += states
            per_batch[b["name"]] = dict(traces=checked, states=states, rejected=len(bad))
            bytrace = {t["id"]: t for t in traces}
            for t in live:
                distinct.add(json.dumps([t.get("init"), t.get("events")], sort_keys=True)[:20000])
            if live:
                small = min(live, key=lambda t: abs(len(json.dumps(t)) - 700))
                text = json.dumps(dict(batch=b["name"], scenario=byid[small["id"]], trace=small))
                samples.append(json.loads(text) if len(text) < 6000 else text[:3000])
            for r in bad:
                s = byid[r["id"]]
                hit = [k for k in known_findings(prop) if matches(k, s, r)]
                (known_hits if hit else violations).append((b, r, s, bytrace.get(r["id"]), hit))
            if violations and (time.time() - t0 > 500 or any(r["clause"] == "ProcessDiedHang" for r in bad)):
                break          # there is an answer, and the rest could take too long
        ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
                  coverage=dict(states=sum(m["states"] for m in models), transitions=sum(m["transitions"] for m in models),
                                traces_validated_against_impl=total_traces,
                                trace_states=total_states, evaluations=total_traces,
                                distinct_nontrivial=len(distinct),
                                rule=mod.RULE, samples=samples[:6],
                                models=[dict(module=m["module"], cfg=m["cfg"], states=m["states"], transitions=m["transitions"],
                                             behaviours_replayed=len(m["scenarios"]), wall_s=m["wall"],
                                             actions=m["actions"]) for m in models],
                                batches=per_batch),
                  assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(violations))
        if not replay:
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        for line in sorted({f"KNOWN-FINDING: property={prop} {k['what']}" for *_, hit in known_hits for k in hit}):
            print(line)
        if violations:
            d = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            clauses = {}
            for b, r, s, t, _ in violations:
                clauses.setdefault((b["name"], r["clause"]), []).append((b, r, s, t))
            for i, ((name, clause), vs) in enumerate(sorted(clauses.items())):
                b, r, s, t = min(vs, key=lambda v: len(json.dumps(v[2])))
                path = os.path.join(d, f"{prop}-{i}.json")
                with open(path, "w") as f:
                    json.dump(dict(property=prop, batch=name, rejection=r, scenario=s, trace=t), f)
                print(f"  {len(vs)} trace(s) of batch {name} rejected by clause {clause}; smallest at step {r['step']} {r.get('detail','')}")
                print(f"VIOLATION property={prop} replay={path}")
            return 1
        print(f"OK {prop}: {ev['coverage']['states']} states, {total_traces} traces, {ev['wall_s']}s  {per_batch}")
        return 0
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
