#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Properties whose id the checker does not know go to not_applicable."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS, NOT_APPLICABLE, NOTE

src = open(os.path.join(ROOT, "mc/src/props/mod.rs")).read()
ids = re.findall(r'"(C\d+)"', re.search(r"IDS: &\[&str\] = &\[(.*?)\];", src, re.S).group(1))
na = [{"property": p, "reason": r} for p, r in NOT_APPLICABLE]
lines, checks = [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", ["engine output"]),
                    "hook_needed": p.get("hook", "rawdio_mc (std resolved to the harness's stand-in for channels, threads, sleep and hashing)")},
    }))
    if p["id"] in ids:
        checks.append({"property": p["id"], "quick_cmd": f"./run.sh check {p['id']} quick",
                       "thorough_cmd": f"./run.sh check {p['id']} thorough",
                       "technique": p["tech"], "level": "model_checking", "level_note": p["note"] + " " + NOTE})
    else:
        if p["id"] not in [n["property"] for n in na]:
            na.append({"property": p["id"], "reason": "not claimed yet: its check is still being built"})
manifest = {
    "version": 1, "setup_cmd": "./run.sh build",
    "hooks": {"guard": "rawdio_mc",
              "enable": "RUSTFLAGS='--cfg rawdio_mc' with mc/shim/crossbeam in place of the crossbeam crate (./run.sh build)",
              "source_commits": ["f9668a1", "8fddf88"]},
    "checks": checks, "not_applicable": na,
}
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(manifest, indent=1) + "\n")
try:
    import jsonschema
    for l in lines:
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(lines), "properties,", len(checks), "checks,", len(na), "not claimed")
