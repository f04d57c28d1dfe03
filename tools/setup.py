#!/usr/bin/env python3
"""Setup: nothing is prebuilt (checks build from /repo); only see that the tools are there."""
import shutil, sys
missing = [t for t in ("gcc", "g++", "clang", "clang++") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + " ".join(missing))
print("ok")
