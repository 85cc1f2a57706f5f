"""Runs the checks against planted bugs in scratch copies of the source (VERIF_REPO_SRC).

python3 tools/runseeds.py [--all] [id ...]     --all: every check, not only that of the bug's property
"""
import os, shutil, subprocess, sys, json, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
full = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    base = tempfile.mkdtemp(prefix="run-%s-" % i)
    try:
        shutil.copytree(os.environ.get("VERIF_BASE", "/repo"), base + "/repo", symlinks=True)
        r = subprocess.run(["git", "-C", base + "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            print(i, "patch does not apply", r.stderr)
            continue
        res = []
        for p in (props if full else [prop]):
            t = time.time()
            o = subprocess.run(["python3", V + "/check.py", p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO_SRC=base + "/repo/src", VERIF_SHRINK_S=os.environ.get("VERIF_SHRINK_S", "8")))
            hit = o.returncode == 1 and "VIOLATION property=%s " % p in o.stdout
            res.append("%s:%s(%.0fs)" % (p, "CAUGHT" if hit else "quiet" if o.returncode == 0 else "ERROR", time.time() - t))
            if p == prop:
                msg = [l for l in o.stdout.splitlines() if l.startswith("property ")]
        print(i, prop, " ".join(res if not full else [x for x in res if "quiet" not in x]), "|", (msg[0][:150] if msg else ""), flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
