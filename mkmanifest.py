#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    p = props.PROPS.get(i)
    if p:
        checks.append(dict(property=i, quick_cmd=f"python3 run.py check {i} --tier quick", thorough_cmd=f"python3 run.py check {i} --tier thorough",
                           technique=p.technique, level=p.level, level_note=p.note))
na = [dict(property=i, reason=props.NOT_APPLICABLE.get(i, "no check yet")) for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
               notes="Static analysis only: a rustc driver exports the MIR of /repo's current source for a family of entry points (witness/), and engine/ interprets it abstractly. Nothing of the crate is run."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
