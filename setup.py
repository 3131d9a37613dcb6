#!/usr/bin/env python3
"""Nothing is built ahead of time (every check rebuilds from /repo); this only verifies the tools are there."""
import os
import shutil
import subprocess
import sys
ok = True
for t in ("clang++-18", "clang++", "opt-18", "llvm-link-18", "g++"):
    print(t, shutil.which(t))
r = subprocess.run(["/opt/venv/bin/python", "-c", "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/"
                    "site-packages'); import torch, z3; print(torch.__version__, z3.get_version_string())"])
sys.exit(r.returncode)
