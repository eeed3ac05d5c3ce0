#!/opt/venv/bin/python
"""Plant one bug: ``plant.py DEF.py [--nocheck]``.

DEF.py defines ``id``, ``property``, ``edits`` (list of (file, old, new)), ``needs``, ``breaks``
and ``demo`` (the text of a Python program).  The script works in a scratch copy of /repo, runs
the test-suite, the demonstration and the property's check there, and keeps the bug under
/verif/seeded/<id>/ when the demonstration separates the two trees and the tests pass.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, env=dict(os.environ, **env))


def main(path, check=True):
    d = runpy.run_path(path)
    tmp = tempfile.mkdtemp(prefix="plant")
    copy = os.path.join(tmp, "repo")
    lines = [d["id"]]
    try:
        sh(["cp", "-a", "/repo", copy], "/")
        for fn, old, new in d["edits"]:
            p = os.path.join(copy, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(d["id"], "EDIT-MATCHES", s.count(old), fn, repr(old[:60]))
                return 2
            open(p, "w").write(s.replace(old, new))
        patch = sh("git diff", copy).stdout
        out = os.path.join(tmp, "seeded")
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        open(os.path.join(out, "demo.py"), "w").write(d["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = sh(["sh", os.path.join(out, "demo.sh")], "/repo")
        b = sh(["sh", os.path.join(out, "demo.sh")], copy)
        lines.append("demo base=%d bug=%d" % (a.returncode, b.returncode))
        ok = a.returncode == 0 and b.returncode != 0
        if not ok:
            lines += [a.stdout[-600:], b.stdout[-600:]]
        t = sh("/opt/venv/bin/python -m pytest -q -x -n 4 test 2>&1 | tail -5", copy, PYTHONPATH=copy,
               PYTHONDONTWRITEBYTECODE="1")
        if "unrecognized" in t.stdout:
            t = sh("/opt/venv/bin/python -m pytest -q -x test 2>&1 | tail -5", copy, PYTHONPATH=copy,
                   PYTHONDONTWRITEBYTECODE="1")
        tests = "failed" not in t.stdout and "passed" in t.stdout and "error" not in t.stdout
        lines.append("tests " + ("ok" if tests else "FAIL " + t.stdout[-400:]))
        if check:
            for prop in d.get("checks", [d["property"]]):
                c = sh([sys.executable, os.path.join(ROOT, "check.py"), prop], ROOT,
                       FINAT_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick")
                v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
                lines.append("check %s rc=%d %s" % (prop, c.returncode, "CAUGHT " + v[0][:200] if v else "MISSED"))
        if ok and tests:
            dst = os.path.join(ROOT, "seeded", d["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
        else:
            lines.append("NOT KEPT")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(" | ".join(lines), flush=True)


if __name__ == "__main__":
    for p in sys.argv[1:]:
        if not p.startswith("--"):
            main(p, "--nocheck" not in sys.argv)
