#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current sources"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from maf import core
import rules

rules.load()
if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    if pid == "all":
        rc = 0
        for p in sorted(core.PROPS):
            rc = max(rc, core.main(p, tier))
        sys.exit(rc)
    sys.exit(core.main(pid, tier))
