#!/usr/bin/env python3
"""Nothing to install: checks that the compilers the checks use are present."""
import shutil, sys
missing = [t for t in ("gcc", "clang", "ld") if shutil.which(t) is None]
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)
