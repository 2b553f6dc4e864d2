#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions in defs.py (run by hand, not by the checks)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from defs import PROPS
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"],
                              mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p["observe"], hook_needed=None))
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
for p in PROPS:
    if p.get("na"):
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick",
                            thorough_cmd=f"./check.sh {p['id']} thorough",
                            technique=p["technique"], level="exploration", level_note=p["note"]))
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
