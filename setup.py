#!/usr/bin/env python3
"""Nothing to install: drivers are compiled by each check from /repo's current tree.
This only verifies that the tools are there and the specifications parse."""
import os, shutil, subprocess, sys
root = os.path.dirname(os.path.abspath(__file__))
for t in ("java", "g++"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
specs = sorted(f for f in os.listdir(os.path.join(root, "spec")) if f.endswith(".tla"))
r = subprocess.run(["java", "-cp", cp, "tla2sany.SANY", *specs], cwd=os.path.join(root, "spec"),
                   capture_output=True, text=True)
if r.returncode != 0:
    sys.exit(r.stdout[-3000:] + r.stderr[-2000:])
print("setup: %d specification modules parse" % len(specs))
