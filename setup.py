#!/usr/bin/env python3
"""Checks that the tools the checks use are present; every check builds what it needs itself."""
import os, shutil, sys
missing = [t for t in ("g++", "clang++", "nasm", "node", "llvm-mc", "nm", "objcopy") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)
print("tools present")
