#!/usr/bin/env python3
"""Setup: parses every specification module with SANY (nothing is installed or built here)."""
import concurrent.futures, glob, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
def one(f):
    r = subprocess.run(["java", "-Xmx512m", "-cp", CP, "tla2sany.SANY", os.path.basename(f)], cwd=H + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return f, r.returncode, r.stdout
bad = 0
with concurrent.futures.ThreadPoolExecutor(6) as ex:
    for f, rc, out in ex.map(one, sorted(glob.glob(H + "/spec/*.tla"))):
        if rc or "*** Errors" in out or "Fatal" in out:
            bad = 1
            print(f, out[-1500:])
sys.exit(bad)
