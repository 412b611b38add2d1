#!/usr/bin/env python3
"""Nothing has to be built beforehand: parses every specification, so that a broken one is noticed
before any check runs."""
import glob
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
files = sorted(glob.glob(os.path.join(ROOT, "spec", "*.tla")))
with tempfile.TemporaryDirectory() as d:
    p = subprocess.run(["java", "-cp", JAR, f"-Djava.io.tmpdir={d}", "tla2sany.SANY"] + files, capture_output=True,
                       text=True, cwd=os.path.join(ROOT, "spec"))
bad = p.returncode != 0 or "*** Errors" in p.stdout or "Could not parse" in p.stdout
print(p.stdout[-3000:] if bad else f"{len(files)} specification modules parsed")
sys.exit(1 if bad else 0)
