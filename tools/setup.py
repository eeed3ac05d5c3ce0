"""Nothing to build: parse the specifications so that a broken toolchain shows early."""
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
work = tempfile.mkdtemp(prefix="verif-setup-")
bad = 0
try:
    for f in os.listdir(os.path.join(V, "spec")):
        shutil.copy(os.path.join(V, "spec", f), work)
    for f in sorted(os.listdir(work)):
        if f.endswith(".tla"):
            p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", f], cwd=work, capture_output=True, text=True)
            ok = p.returncode == 0 and "Errors" not in p.stdout
            print(f, "ok" if ok else "FAILED\n" + p.stdout)
            bad += not ok
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(1 if bad else 0)
