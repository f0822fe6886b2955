#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("props", os.path.join(here, "props.py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
root = os.path.dirname(here)
m.PROPS.sort(key=lambda p: p['id'])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in m.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        mech = [{"name": n, "where": w} for n, w in p["mechanism"]]
        files = sorted({w.split(":")[0] for _, w in p["mechanism"]} | set(p.get("files", [])))
        a = {"files": files, "mechanism": mech, "observe_at": p["observe"], "hook_needed": None}
        if p.get("state"):
            a["state"] = [{"name": n, "meaning": me, "where": w} for n, me, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
for p in m.PROPS:
    if p.get("na"):
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in m.PROPS if p.get("na")],
    "notes": m.NOTES}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m.PROPS), "properties,", len(checks), "checks")
