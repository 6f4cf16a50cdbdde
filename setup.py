#!/usr/bin/env python3
"""setup_cmd: build every harness against the current tree (the checks rebuild whatever is missing or stale)."""
import subprocess, sys, os
from targets import TARGETS
here = os.path.dirname(os.path.abspath(__file__))
seen, rc = set(), 0
for p, t in TARGETS.items():
    if t["harness"] not in seen:
        seen.add(t["harness"])
        rc |= subprocess.call([sys.executable, os.path.join(here, "check.py"), p, "--build-only"])
sys.exit(1 if rc else 0)
