#!/usr/bin/env python3
import shutil, sys
miss = [t for t in ("cbmc", "goto-cc", "goto-instrument", "z3-new", "gcc") if not shutil.which(t)]
print("missing: %s" % miss if miss else "tools present")
sys.exit(1 if miss else 0)
