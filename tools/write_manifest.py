#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE, TECHNIQUE, LEVEL_NOTE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = dict(NOT_APPLICABLE)
for i in ids:
    if i not in PROPS and i not in na:
        na[i] = "The check is being built."
json.dump(dict(
    version=1,
    setup_cmd="python3 check.py --setup",
    hooks=dict(guard="LVSIM", enable="No hooks in /repo: the checks compile /repo/src with -DLVSIM, -fsanitize=thread instrumentation handled by the simulator, the stand-in headers of /verif/shim and link-time wrapping.", source_commits=[]),
    checks=[dict(property=p, quick_cmd="VERIF_TIER=quick python3 check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p,
                 evidence_file="evidence/%s.json" % p, technique=TECHNIQUE[p] if p in TECHNIQUE else TECHNIQUE[""], level="exploration",
                 level_note=LEVEL_NOTE.get(p, LEVEL_NOTE[""])) for p in sorted(PROPS)],
    not_applicable=[dict(property=p, reason=na[p]) for p in sorted(na)],
    notes="See DESIGN.md. Replay a violation with: python3 check.py --replay <file>."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
