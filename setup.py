#!/usr/bin/env python3
"""Nothing persists between runs, so set-up only confirms that the tools the checks need are there."""
import shutil, sys
missing = [t for t in ("g++", "valgrind", "python3") if not shutil.which(t)]
if missing:
    print("missing tools: " + ", ".join(missing))
    sys.exit(1)
print("tools present")
