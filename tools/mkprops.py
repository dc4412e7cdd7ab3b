#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, state, mech, observe, technique, note, level="exploration", hook=None):
    P.append(dict(d=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                         anchors=dict(files=["pyebsdindex/" + f for f in files],
                                      state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                      mechanism=[dict(name=a, where=b) for a, b in mech],
                                      observe_at=observe, hook_needed=hook)),
                  technique=technique, note=note, level=level))


exec(open(os.path.join(V, "tools", "proptable.py")).read())

assert len({p["d"]["id"] for p in P}) == len(P)
for p in P:
    assert len(p["d"]["title"]) <= 80, p["d"]["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["d"]) + "\n")
checks = []
notapp = []
for p in P:
    i = p["d"]["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick ./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                           technique=p["technique"], level=p["level"], level_note=p["note"], evidence_file="evidence/%s.json" % i))
    else:
        notapp.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=notapp,
         notes="No hooks are compiled into /repo: every monitor observes the public API, or replaces an external module (ray, "
               "pyopencl) around the unmodified package. Each check runs its workload in child processes with a scratch HOME "
               "and numba cache, so every run recompiles the current tree.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
