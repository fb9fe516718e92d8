#!/usr/bin/env python3
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i + ".py")):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s" % i,
            technique=n.get("technique", "TLA+ specification model checked with TLC; traces recorded from the real code validated against it by TLC"),
            level=n.get("level", "model_checking"),
            level_note=n.get("note", "TLC explores the bounded specification exhaustively and decides for every recorded execution of the real code whether it is a behaviour of the specification; assurance is exhaustive within the stated bounds and sampled (seeded) beyond them. Trusts TLC, the compilers and the recorder.")))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get("na", "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
