#!/usr/bin/env python3
"""Builds the conformance driver and parses the specification modules."""
import glob
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import tlc  # noqa: E402

for v in ("default", "python"):
    print(build.build(v))
print(build.build(main="pddl"))
for m in sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", tlc.CP, "tla2sany.SANY", m], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, cwd=tlc.SPEC)
    print(os.path.basename(m), "ok" if p.returncode == 0 else p.stdout)
    if p.returncode:
        sys.exit(1)
