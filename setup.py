#!/usr/bin/env python3
"""Checks that the tools the framework needs are there and creates its build folder."""
import os, shutil, sys
here = os.path.dirname(os.path.abspath(__file__))
for d in (".build", "evidence", "replays"):
    os.makedirs(os.path.join(here, d), exist_ok=True)
missing = [t for t in ("g++", "gcc") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ready")
