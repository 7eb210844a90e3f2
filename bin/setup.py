#!/usr/bin/env python3
"""Nothing is built ahead of the checks (each builds its drivers from /repo); check the toolchain."""
import shutil, subprocess, sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
missing = [t for t in ("java", "g++", "python3") if not shutil.which(t)]
jar = "/opt/veriftools/tla/tla2tools.jar"
if missing or not os.path.exists(jar):
    sys.exit("missing: %s" % (missing or jar))
