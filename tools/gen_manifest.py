#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in ids:
    if p in props.PARTS:
        checks.append(dict(property=p, quick_cmd="python3 tools/check.py %s quick" % p, thorough_cmd="python3 tools/check.py %s thorough" % p,
                           technique=props.TECHNIQUE.get(p, props.TECH), level=props.LEVEL.get(p, "model_checking"), level_note=props.NOTE.get(p, props.NOTE_DEF)))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks,
         not_applicable=[dict(property=p, reason=props.NOT_APPLICABLE[p]) for p in ids if p not in props.PARTS])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
