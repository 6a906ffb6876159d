#!/usr/bin/env python3
"""setup_cmd: check that the tools are there and every specification parses."""
import os, subprocess, sys, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import rig
bad = 0
for f in sorted(glob.glob(os.path.join(rig.SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", rig.tlc_classpath(), "tla2sany.SANY", os.path.basename(f)], cwd=rig.SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or "Fatal" in p.stdout or "*** Errors" in p.stdout:
        print(f, p.stdout[-2000:])
        bad = 1
rig.build_monitor()
rig.cleanup()
print("setup", "failed" if bad else "ok")
sys.exit(bad)
