"""Checks the tools and parses every module of the specification."""
import glob
import os
import subprocess
import sys

import tlc

bad = 0
for f in sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla"))):
    r = subprocess.run(["java", "-cp", tlc.classpath(), "tla2sany.SANY", os.path.basename(f)], cwd=tlc.SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = r.returncode == 0 and "*** Errors" not in r.stdout and "Fatal" not in r.stdout
    print(os.path.basename(f), "ok" if ok else "DOES NOT PARSE")
    if not ok:
        print(r.stdout[-2000:])
        bad = 1
import networkx  # noqa: E402,F401
os.makedirs(os.path.join(tlc.HERE, "evidence", "replay"), exist_ok=True)
sys.exit(bad)
