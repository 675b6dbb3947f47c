#!/usr/bin/env python3
"""Nothing is built ahead of time; make sure the tools the checks use are there."""
import shutil, sys
missing = [t for t in ("cbmc", "goto-cc", "goto-instrument", "clang", "prlimit") if not shutil.which(t)]
if missing:
    print("missing tools:", ", ".join(missing))
    sys.exit(1)
print("ok")
