#!/usr/bin/env python3
"""Shows a replay file, and with --run repeats its scenario with tracebacks"""
import json, sys, os, subprocess, tempfile
r = json.load(open(sys.argv[1]))
print(r["rejection"]); print(json.dumps({k: v for k, v in r["scenario"].items() if k != "ops"})[:1500])
for i, e in enumerate((r["trace"] or {}).get("events", [])):
    print(i + 1, json.dumps(e)[:int(os.environ.get("W", "900"))])
if "--run" in sys.argv:
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import random, importlib
    mod = importlib.import_module("props." + r["property"].lower())
    b = [b for b in mod.batches("quick", random.Random(1), []) if b["name"] == r["batch"]][0]
    d = tempfile.mkdtemp()
    json.dump([r["scenario"]], open(d + "/s", "w"))
    subprocess.run(["/opt/venv/bin/python", os.path.dirname(os.path.abspath(__file__)) + "/../drivers/kit.py", b["driver"], d + "/s", d + "/o"], env=dict(os.environ, VERIF_DEBUG="1", PYTHONDONTWRITEBYTECODE="1"))
