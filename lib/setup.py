#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses; warms the build cache"""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Run, SPEC, Error

try:
    r = Run("setup", "quick", "other")
    r.driver()
    ms = sorted(glob.glob(os.path.join(SPEC, "*.tla")))
    jar = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
    p = subprocess.run(["java", f"-Djava.io.tmpdir={r.dir}", "-cp", jar, "tla2sany.SANY", *ms], cwd=SPEC, capture_output=True, text=True)
    if p.returncode != 0 or "*** Errors" in p.stdout:
        raise Error(p.stdout[-4000:])
    print(len(ms), "specifications parse")
except Error as e:
    print("ERROR", e)
    sys.exit(2)
