#!/usr/bin/env python3
"""setup_cmd: nothing to prebuild (each check builds from the working tree); verifies that the tools are there."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
