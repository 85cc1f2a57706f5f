"""Builds /verif/seeded/<id>/ from tools/bugs.py and confirms each bug in a scratch copy of /repo.

python3 tools/mkseeds.py [id ...]      (re)build and confirm
"""
import os, shutil, subprocess, sys, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from bugs import BUGS

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
DEMO_SH = """#!/bin/bash
# run with cwd = the repository; exit 0: property holds, non-zero: broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def one(b):
    base = tempfile.mkdtemp(prefix="seed-%s-" % b["id"])
    try:
        repo = os.path.join(base, "repo")
        shutil.copytree(os.environ.get("VERIF_BASE", "/repo"), repo, symlinks=True)
        d = os.path.join(base, "out")
        os.makedirs(d)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        clean = run(["bash", d + "/demo.sh"], cwd=repo, env=ENV)
        for f, old, new in b["edits"]:
            path = os.path.join(repo, "src/PythonicDISORT", f)
            s = open(path, newline="").read()
            o, n = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(o) != 1:
                return "%s: text occurs %d times in %s: %r" % (b["id"], s.count(o), f, old[:60])
            open(path, "w", newline="").write(s.replace(o, n))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
        bad = run(["bash", d + "/demo.sh"], cwd=repo, env=ENV)
        e = dict(ENV, PYTHONPATH=repo + "/src")
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--rootdir=" + repo, "-p", "no:cacheprovider", "--timeout=300"], cwd=repo + "/pydisotest", env=e)
        where = run(["/opt/venv/bin/python", "-c", "import PythonicDISORT;print(PythonicDISORT.__file__)"], cwd=repo + "/pydisotest", env=e).stdout
        ok = clean.returncode == 0 and bad.returncode != 0 and t.returncode == 0 and where.startswith(repo)
        msg = "%s: demo clean %d, demo bug %d, tests %s" % (b["id"], clean.returncode, bad.returncode, t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:])
        if not ok:
            return "REJECTED " + msg + "\n" + clean.stdout[-300:] + clean.stderr[-600:] + "\n--bug: " + bad.stdout[-300:] + bad.stderr[-300:]
        dst = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return "ok " + msg
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    want = sys.argv[1:]
    todo = [b for b in BUGS if not want or b["id"] in want]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, todo):
            print(r, flush=True)
