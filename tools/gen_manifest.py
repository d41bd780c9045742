#!/usr/bin/env python3
import json, os, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
cfg = json.load(open(os.path.join(ROOT, "tools", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = cfg["checks"].get(p["id"])
    if c and c.get("enabled", True):
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
            "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
    else:
        na.append({"property": p["id"], "reason": cfg["not_applicable"].get(p["id"], "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na, "notes": cfg.get("notes", "")}
if cfg.get("hooks"): m["hooks"] = cfg["hooks"]
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
