"""For each repaired defect: undo the repair in a scratch worktree and see that the property's check reports it (not part of any check)."""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for line in open(os.path.join(V, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if not m or (want and m[2] not in want):
        continue
    d = tempfile.mkdtemp(prefix="rev-")
    w = d + "/w"
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"], check=True)
        r = subprocess.run(["git", "-C", w, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", m[2]], capture_output=True, text=True)
        if r.returncode:
            print(m[2], m[1], "CONFLICT (overlaps with a later repair)", flush=True)
            continue
        ids = [m[1]] + re.findall(r"C\d\d", m[3])
        for i in ids:
            r = subprocess.run([sys.executable, "check.py", i], cwd=V, env=dict(os.environ, VERIF_REPO_SRC=w + "/src", VERIF_SHRINK_S="3"), capture_output=True, text=True)
            print(m[2], i, "reported" if r.returncode == 1 else "NOT REPORTED (%d)" % r.returncode, flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w])
        shutil.rmtree(d, ignore_errors=True)
