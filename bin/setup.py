#!/usr/bin/env python3
"""Nothing is built: parse every specification once so a broken tool chain shows up early."""
import glob
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for p in sorted(glob.glob(os.path.join(ROOT, "spec", "*.tla"))):
    r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", os.path.basename(p)], cwd=os.path.join(ROOT, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = r.returncode == 0 and not re.search(r"\b(errors?|aborting)\b", r.stdout, re.I)
    print(("ok   " if ok else "FAIL ") + os.path.basename(p))
    bad += not ok
sys.exit(1 if bad else 0)
