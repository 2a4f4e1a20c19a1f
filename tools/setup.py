#!/usr/bin/env python3
"""Nothing is kept between runs: checks the tools and parses the specifications."""
import glob, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.core import JAR, SPEC
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
bad = 0
files = sorted(glob.glob(os.path.join(SPEC, "*.tla")))
with tempfile.TemporaryDirectory() as d:
    for f in files:
        r = subprocess.run(["java", "-Xmx512m", "-cp", JAR, "tla2sany.SANY", f], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or "*** Errors" in r.stdout or "Fatal" in r.stdout:
            print(r.stdout[-2000:])
            bad = 1
print("%d modules parsed" % len(files))
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
sys.exit(bad)
