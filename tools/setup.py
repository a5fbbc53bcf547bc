#!/usr/bin/env python3
"""offline set-up: check that the tools and data are there, and build the most used driver"""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf
for t in ("java", "g++", "clang++", "valgrind"):
    if not shutil.which(t):
        print("missing tool:", t)
        sys.exit(1)
for f in vf.JARS.split(":") + [os.path.join(vf.SPEC, "data", "ucd.json")]:
    if not os.path.exists(f):
        print("missing file:", f)
        sys.exit(1)
vf.build_driver("asan")
print("ready")
