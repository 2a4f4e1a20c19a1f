#!/usr/bin/env python3
"""Prints the table of planted changes by property (for DESIGN.md)."""
import json, os, glob
d = {}
for m in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", "*", "meta.json"))):
    d.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
for k in sorted(d):
    print("| %s | %s |" % (k, ", ".join(d[k])))
