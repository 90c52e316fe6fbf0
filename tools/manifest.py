#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule registry; run after changing the registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules import registry

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in ids:
    if p in registry.PROPS:
        tech, note = registry.TEXT[p]
        checks.append({"property": p, "quick_cmd": "python3 /verif/check.py " + p,
                       "thorough_cmd": "python3 /verif/check.py %s --thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": tech, "level": "other", "level_note": note})
na = [{"property": p, "reason": registry.NOT_APPLICABLE.get(p, "no check built yet")} for p in ids if p not in registry.PROPS]
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py",
     "hooks": {"guard": "A0_VERIF_UNUSED", "enable": "no hooks are used: the checks read the sources as they are",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles /repo's sources to LLVM IR and applies rules to it; nothing from /repo is executed. "
              "Quick and thorough runs apply the same rules."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
