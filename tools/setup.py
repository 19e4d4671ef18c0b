#!/usr/bin/env python3
"""Nothing is prebuilt: every check extracts, verifies and compiles from the current tree. This only
says whether the tools are there."""
import shutil, sys
miss = [t for t in ("verus", "cargo") if not shutil.which(t)]
print("missing: " + " ".join(miss) if miss else "tools present")
sys.exit(1 if miss else 0)
