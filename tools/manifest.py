#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per function in lib/props.py."""
import json, os, re, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import notes
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
src = open(os.path.join(V, "lib", "props.py")).read()
have = set(re.findall(r"(?m)^def (C\d\d)\(", src))
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": [], "not_applicable": [],
    "notes": "TLA+ with TLC. No hooks in /repo: everything is observed through the public API and the wire. See DESIGN.md.",
}
for p in props:
    if p in have:
        m["checks"].append({
            "property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": notes.TECHNIQUE[p], "level": "model_checking",
            "level_note": notes.LEVEL[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": notes.NA.get(p, "no check built for it yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
