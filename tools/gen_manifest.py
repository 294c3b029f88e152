#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in props/ is claimed"""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
WHY = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "props", i.lower() + ".py")):
        m = importlib.import_module("props." + i.lower())
        specs = sorted({x["module"] for x in m.models("thorough")})
        tr = sorted({b["module"] for b in m.batches("quick", __import__("random").Random(1), [])})
        checks.append(dict(property=i, quick_cmd=f"./check.py {i} --tier quick", thorough_cmd=f"./check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", level=m.LEVEL,
                           technique=f"TLA+ specification model checked with TLC ({', '.join(specs)}); recorded executions of the real code validated against it with TLC ({', '.join(tr)})",
                           level_note="The design is checked exhaustively within small constants; the code is bound to it by validating every recorded execution "
                                      "(model behaviours replayed into the code, plus seeded random ones), so it is decided for what was executed. Assumes: " + "; ".join(m.ASSUMPTIONS)))
    else:
        na.append(dict(property=i, reason=WHY.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
