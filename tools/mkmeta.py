#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in meta/*.py (one dict per property)."""
import importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("table", os.path.join(V, "tools", "proptable.py"))
t = importlib.util.module_from_spec(spec)
spec.loader.exec_module(t)
props, checks = [], []
for p in t.PROPS:
    assert len(p["title"]) <= 80, p["id"]
    st = p["statement"]
    props.append({"id": p["id"], "title": p["title"], "statement": st,
                  "quantifier": {"over": p.get("over", ["inputs"]), "text": p["q"]},
                  "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                              "observe_at": p["observe"], "hook_needed": None}})
    if p.get("claimed", True):
        checks.append({"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']} quick",
                       "thorough_cmd": f"python3 tools/check.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                       "technique": p.get("technique", t.TECH), "level": "model_checking", "level_note": p.get("note", "") + t.NOTE})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "LNLIB_VERIF (reserved; no hooks were needed, the driver uses the public API only)",
               "enable": "no hook commits; the driver is compiled with /repo/src/LNLib's sources", "source_commits": []},
     "checks": checks, "not_applicable": t.NA, "notes": t.NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(props), "properties", len(checks), "checks")
