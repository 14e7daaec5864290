#!/usr/bin/env python3
"""Check that the toolchain the checks need is there (nothing is installed)."""
import shutil, sys
missing = [t for t in ("clang++-18", "git") if not shutil.which(t)]
if missing: print("missing tools:", missing); sys.exit(1)
print("toolchain ok")
