#!/usr/bin/env python3
"""Warm the (content-addressed) compiler cache. Checks work without it, only slower."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from specs import SPECS
seen = set(); rc = 0
for pid, s in SPECS.items():
    for r in s["runs"]:
        if r.get("thorough_only"): continue
        try: check.build(pid, r)
        except check.CheckError as e: print("setup: %s: %s" % (pid, str(e)[:2000])); rc = 1
open(os.path.join(check.BUILD, "setup.stamp"), "w").write("done\n")
sys.exit(rc)
