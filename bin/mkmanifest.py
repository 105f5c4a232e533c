#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
sys.dont_write_bytecode = True
from registry import CHECKS, NOT_APPLICABLE
checks = [dict(property=p, quick_cmd="python3 -B bin/check.py %s --tier quick" % p,
               thorough_cmd="python3 -B bin/check.py %s --tier thorough" % p, evidence_file="evidence/%s.json" % p,
               technique=c["technique"], level="model_checking", level_note=c["note"])
          for p, c in sorted(CHECKS.items())]
json.dump(dict(version=1, setup_cmd="python3 -B bin/setup.py", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
               notes="No hooks in /repo: every check rebuilds /repo's working tree with its own flags in a scratch directory."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
