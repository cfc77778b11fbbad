#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json
from props import PROPS, NOT_APPLICABLE
T = "symbolic execution of the compiled LLVM IR of the crate; every assertion and the coverage of the input space decided by an SMT solver (z3)"
checks = [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
           "technique": T, "level": "model_checking",
           "level_note": "Bounds: quick %s; thorough %s. Inside the bounds every value is decided, outside nothing is claimed." % tuple(PROPS[p]["bounds"])}
          for p in sorted(PROPS)]
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())]},
          open("MANIFEST.json", "w"), indent=1)
