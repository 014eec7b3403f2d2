#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that everything compiles and parses."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import tlc  # noqa: E402

d = tempfile.mkdtemp(prefix="verif_setup_")
try:
    build.build(d)
    for f in sorted(glob.glob(build.VERIF + "/spec/*.tla")):
        p = subprocess.run(["java", "-cp", tlc.CP, "tla2sany.SANY", f], cwd=build.VERIF + "/spec", stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode or "*** Errors" in p.stdout:
            print(p.stdout)
            sys.exit(1)
    print("setup ok")
finally:
    shutil.rmtree(d, ignore_errors=True)
