#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked by TLC; recorded library sessions validated as behaviours of it"


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks = []
    for p in props:
        i = p["id"]
        if not registry.claimed(i):
            continue
        checks.append(dict(
            property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i,
            thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
            technique=registry.TECHNIQUE.get(i, TECH), level="model_checking",
            level_note=registry.NOTE.get(i, registry.NOTE_DEFAULT)))
    na = [dict(property=p["id"], reason=registry.NOT_APPLICABLE[p["id"]])
          for p in props if not registry.claimed(p["id"])]
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the conformance driver is built from /repo's unmodified sources. "
                   "tools/mkmanifest.py writes this file.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
