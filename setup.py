#!/usr/bin/env python3
"""Nothing to build ahead of the checks: verifies the tools they need."""
import shutil, sys
miss = [t for t in ("cbmc", "goto-cc", "goto-instrument", "gcc", "clang", "python3-vt") if not shutil.which(t)]
print("missing: %s" % miss if miss else "tools present")
sys.exit(1 if miss else 0)
