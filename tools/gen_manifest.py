#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^hook:"], stdout=subprocess.PIPE, text=True).stdout.split()
checks = []
for p in sorted(PROPS):
    st = PROPS[p]["stages"]
    models = sorted({s["module"] for s in st if s["kind"] == "model"})
    traces = sorted({s.get("cfg", s["module"]) for s in st if s["kind"] == "trace"})
    note = []
    if models:
        note.append("TLC explores %s exhaustively within the constants of tools/registry.py; its behaviours are executed on the code and compared" % ", ".join(models))
    if traces:
        note.append("random histories of the code are accepted by %s only if every call and result is a step of the specification" % ", ".join(traces))
    note.append("assurance is exhaustive only within these bounds, sampled beyond them; trusts TLC, rustc and the driver's encoding")
    checks.append(dict(property=p, quick_cmd="python3 tools/check.py " + p, thorough_cmd="python3 tools/check.py " + p,
                       evidence_file="evidence/%s.json" % p,
                       technique="TLA+ specification checked with TLC, bound to the code by " +
                                 ("model-generated behaviours replayed and " if models else "") + "trace validation",
                       level="model_checking", level_note="; ".join(note)))
m = dict(version=1, setup_cmd="python3 tools/check.py --setup",
         hooks=dict(guard="cfg(cp_verif)",
                    enable="RUSTFLAGS='--cfg cp_verif' (only the driver of C29; tools/check.py sets it)", source_commits=hook),
         checks=checks, not_applicable=[],
         notes="Every check is tools/check.py with the property's stages from tools/registry.py; VERIF_SEED selects the random histories, VERIF_TIER the bounds.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
