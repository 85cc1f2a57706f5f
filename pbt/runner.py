"""Runs one property: sharded Hypothesis search, shrinking, replay files and evidence.

Exit codes: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 error of the check itself.
"""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NSHARDS = 8
SOFT = float(os.environ.get("VERIF_SOFT_S", "480"))  # budget of one quick run; reaching it is inconclusive, not a violation
SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", "40"))


def env():
    e = dict(os.environ)
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONPATH"] = ""
    return e


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


# ------------------------------------------------------------------------------------------------- worker
def worker(pid, shard, n, seed, out_path, deadline):
    from . import core
    from .props import PROPS
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    prop = PROPS[pid]
    res = {"evaluations": 0, "nontrivial": 0, "skipped": 0, "digests": [], "samples": [], "fail": None, "error": None}
    digests = set()
    failing = {}
    state = {"first_fail": None, "best": None}
    t_end = deadline

    class Found(Exception):
        pass

    def test(case):
        now = time.time()
        d = digest(case)
        if state["first_fail"] is None:
            if now > t_end:
                res["skipped"] += 1
                return
        elif now > state["first_fail"] + SHRINK_S and d not in failing:
            return
        counting = state["first_fail"] is None
        try:
            try:
                nontriv = prop.check(case)
            except core.Violation:
                raise
            except Exception as e:  # noqa: BLE001
                # an exception out of the code under test that no check expected is a violation, one of our own is an error
                if any("/PythonicDISORT/" in fr.filename for fr in traceback.extract_tb(e.__traceback__)):
                    raise core.Violation("unexpected %s: %s" % (type(e).__name__, str(e)[:300]))
                raise
        except core.Violation as e:
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            failing[d] = True
            size = len(json.dumps(case))
            # Hypothesis ends on its minimal example; keep the smallest one ourselves in any case
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, case, str(e))
            raise Found()
        if counting:
            res["evaluations"] += 1
            if nontriv:
                if d not in digests:
                    digests.add(d)
                    res["nontrivial"] += 1
                    if len(res["samples"]) < 2 and res["nontrivial"] in (3, 17):
                        res["samples"].append(case)

    phases = [Phase.explicit, Phase.generate, Phase.shrink]
    run = settings(
        max_examples=n, deadline=None, database=None, derandomize=False, phases=phases,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False,
    )(given(prop.strategy())(test))
    run = hypothesis.seed(seed)(run)
    try:
        for case in prop.examples(shard, NSHARDS):
            try:
                test(case)
            except Found:
                break
        if state["best"] is None:
            run()
    except Found:
        pass
    except Exception as e:  # noqa: BLE001
        if state["best"] is None:
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
    if state["best"] is not None:
        res["fail"] = {"case": state["best"][1], "message": state["best"][2]}
    res["digests"] = sorted(digests)
    res["labels"] = core.LABELS
    res["stats"] = core.STATS
    with open(out_path + ".tmp", "w") as fh:
        json.dump(res, fh)
    os.replace(out_path + ".tmp", out_path)


# ------------------------------------------------------------------------------------------------- parent
def spawn(args):
    code = "import sys; sys.path.insert(0, %r); sys.path.append(%r); sys.dont_write_bytecode = True; from pbt import runner; runner.entry(sys.argv[1:])" % (VERIF, VT)
    return subprocess.Popen([PY, "-c", code] + args, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def entry(a):
    if a[0] == "worker":
        worker(a[1], int(a[2]), int(a[3]), int(a[4]), a[5], float(a[6]))
    elif a[0] == "replay":
        sys.exit(replay_one(a[1], a[2]))


def replay_one(pid, path):
    from . import core
    from .props import PROPS

    d = json.load(open(path))
    try:
        PROPS[pid].check(d["case"])
    except core.Violation as e:
        print("replay: " + str(e))
        return 1
    return 0


def meta(pid):
    """rule text, quick / thorough counts and known findings of a property, without importing the code under test"""
    code = ("import sys, json; sys.path.insert(0, %r); sys.path.append(%r); sys.dont_write_bytecode = True\n"
            "from pbt.props import PROPS\np = PROPS[%r]\nprint(json.dumps([p.rule, p.quick, p.thorough, p.assumptions]))" % (VERIF, VT, pid))
    r = subprocess.run([PY, "-c", code], env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-3000:]
    return json.loads(r.stdout.strip().splitlines()[-1]), None


def import_failure(err):
    """Did importing the package itself fail (rather than our own files)?"""
    lines = [l for l in err.splitlines() if l.strip().startswith("File ")]
    return bool(lines) and "/PythonicDISORT/" in lines[-1]


def main(argv):
    pid = argv[0]
    if "--replay" in argv:
        p = spawn(["replay", pid, argv[argv.index("--replay") + 1]])
        out, _ = p.communicate()
        sys.stdout.write(out.decode(errors="replace"))
        if p.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (pid, argv[argv.index("--replay") + 1]))
        sys.exit(p.returncode if p.returncode in (0, 1) else 2)
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    soft = SOFT if tier == "quick" else float(os.environ.get("VERIF_SOFT_S", "5400"))
    deadline = t0 + soft
    replay_dir = os.path.join(VERIF, "replays")
    m, err = meta(pid)
    if m is None:
        if import_failure(err):
            os.makedirs(replay_dir, exist_ok=True)
            path = os.path.join(replay_dir, pid + "-import.txt")
            open(path, "w").write(err)
            evidence(pid, tier, seed, t0, {"evaluations": 0, "distinct_nontrivial": 0, "rule": "import of the package failed", "samples": [err[-500:]]}, 1, [])
            print(err)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            sys.exit(1)
        print(err)
        sys.exit(2)
    rule, nq, nt, assumptions = m
    n = int(1.8 * nq) if tier == "quick" else nt
    per = [n // NSHARDS + (1 if i < n % NSHARDS else 0) for i in range(NSHARDS)]
    tmp = tempfile.mkdtemp(prefix="pbt-%s-" % pid)
    procs = []
    outs = []
    for i in range(NSHARDS):
        o = os.path.join(tmp, "s%d.json" % i)
        outs.append(o)
        procs.append(spawn(["worker", pid, str(i), str(per[i]), str(seed * 1009 + i), o, str(deadline)]))
    hard = deadline + 240
    first_fail = None
    import threading

    logs = [b""] * NSHARDS

    def drain(i):
        logs[i] = procs[i].stdout.read()

    threads = [threading.Thread(target=drain, args=(i,), daemon=True) for i in range(NSHARDS)]
    for t in threads:
        t.start()
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        now = time.time()
        if first_fail is None:
            for o in outs:
                if os.path.exists(o) and json.load(open(o)).get("fail"):
                    first_fail = now
        if now > hard or (first_fail and now > first_fail + SHRINK_S + 20):
            for p in procs:
                if p.poll() is None:
                    p.kill()
    for t in threads:
        t.join(5)
    results, errors = [], []
    for i, o in enumerate(outs):
        if os.path.exists(o):
            results.append(json.load(open(o)))
            if results[-1]["error"]:
                errors.append("shard %d: %s" % (i, results[-1]["error"]))
        elif first_fail is None:
            errors.append("shard %d ended without a result (exit %s): %s" % (i, procs[i].returncode, logs[i].decode(errors="replace")[-2000:]))
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    fails = [r["fail"] for r in results if r["fail"]]
    digests = set()
    for r in results:
        digests.update(r["digests"])
    labels, stats = {}, {}
    for r in results:
        for k, v in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r.get("stats", {}).items():
            stats[k] = max(stats.get(k, 0), v)
    cov = {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": len(digests),
        "rule": rule,
        "samples": [s for r in results for s in r["samples"]][:4] or [f["case"] for f in fails][:1],
        "skipped_after_time_budget": sum(r["skipped"] for r in results),
        "case_labels": dict(sorted(labels.items())),
        "largest_discrepancy_over_tolerance": {k: float("%.3g" % v) for k, v in sorted(stats.items())},
        "shards": NSHARDS,
    }
    if fails:
        fails.sort(key=lambda f: len(json.dumps(f["case"])))
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, "%s-%s.json" % (pid, digest(fails[0]["case"])[:10]))
        json.dump({"property": pid, "message": fails[0]["message"], "case": fails[0]["case"]}, open(path, "w"), indent=1)
        evidence(pid, tier, seed, t0, cov, len(fails), assumptions)
        print("property %s violated: %s" % (pid, fails[0]["message"]))
        print("minimal case: " + json.dumps(fails[0]["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if errors:
        print("error of the check:\n" + "\n".join(errors))
        sys.exit(2)
    evidence(pid, tier, seed, t0, cov, 0, assumptions)
    for line in known(pid):
        print(line)
    print("%s held: %d cases, %d distinct non-trivial, %d skipped, %.1f s" % (
        pid, cov["evaluations"], cov["distinct_nontrivial"], cov["skipped_after_time_budget"], time.time() - t0))
    sys.exit(0)


def known(pid):
    """Lines for findings that are recorded but not repaired (none at present suppress anything)."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("open: property=%s " % pid):
                out.append("KNOWN-FINDING: " + l[len("open: "):].strip())
    return out


def evidence(pid, tier, seed, t0, cov, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump({
            "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations,
        }, fh, indent=1)
    os.replace(path + ".tmp", path)
