#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing: python3 tools/props.py)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from targets import TARGETS
I = "include/cslibs_path_planning/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)), note))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, note in P:
    if p["id"] in TARGETS:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "property-based testing: " + note[0], "level": "exploration", "level_note": note[1]})
    else:
        na.append({"property": p["id"], "reason": note[2] if len(note) > 2 else "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check drives the public interfaces. Commits on top of base are fix: commits only."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
