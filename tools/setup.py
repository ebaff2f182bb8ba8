#!/usr/bin/env python3
"""Nothing has to be built; make sure that what the checks need is there."""
import os, shutil, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "out"):
    os.makedirs(os.path.join(here, d), exist_ok=True)
python = "/opt/venv/bin/python"
subprocess.run([python, "-B", "-c", "import numpy, construct, sqlalchemy, sortedcontainers, attr, rich"], check=True)
for tool in ("objcopy", "readelf", "gcc"):
    print("%-8s %s" % (tool, shutil.which(tool) or "missing (the streams using it are skipped)"))
