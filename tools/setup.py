#!/usr/bin/env python3
"""Checks that what the checks need is installed. They build everything else themselves."""
import shutil
import subprocess
import sys

missing = [t for t in ("g++-11", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + " ".join(missing))
subprocess.check_call(["/opt/vp/venv/bin/python", "-c", "import pybind11, cppimport"])
print("ok")
