"""Mutation campaign used to find gaps (not part of any check).

python3 tools/mutate.py gen            list mutants -> /tmp/mut/list.json
python3 tools/mutate.py tests [j]      run the repository's tests on each, keep survivors -> /tmp/mut/surv.json
python3 tools/mutate.py checks [j]     run reduced checks on each survivor -> /tmp/mut/res.jsonl
"""
import ast, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/PythonicDISORT"
FILES = ["pydisort.py", "subroutines.py", "_assemble_intensity_and_fluxes.py", "_solve_for_coeffs.py", "_solve_for_gen_and_part_sols.py"]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")


def gen():
    out = []
    for f in FILES:
        text = open(os.path.join(SRC, f), newline="").read()
        tree = ast.parse(text)
        lines = text.split("\n")
        off = [0]
        for l in lines:
            off.append(off[-1] + len(l.encode()) + 1)
        raw = text.encode()

        def span(n):
            return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

        def add(a, b, new, why):
            old = raw[a:b].decode()
            if old != new:
                ln = raw[:a].count(b"\n") + 1
                out.append({"file": f, "a": a, "b": b, "new": new, "old": old, "line": ln, "why": why, "ctx": lines[ln - 1].strip()[:110]})

        skip = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name == "_compare":
                for k in ast.walk(n):
                    skip.add(id(k))
            if isinstance(n, ast.Call) and getattr(n.func, "attr", "") == "warn":
                for k in ast.walk(n):
                    skip.add(id(k))
            if isinstance(n, ast.Raise):
                for k in ast.walk(n):
                    skip.add(id(k))
        parents = {}
        for n in ast.walk(tree):
            for k in ast.iter_child_nodes(n):
                parents[id(k)] = n
        for n in ast.walk(tree):
            if id(n) in skip or not hasattr(n, "lineno"):
                continue
            a, b = span(n)
            if isinstance(n, ast.BinOp):
                la, lb = span(n.left)[1], span(n.right)[0]
                mid = raw[la:lb].decode()
                for x, y in (("+", "-"), ("-", "+"), ("*", "/"), ("/", "*")):
                    if {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div}[x] is type(n.op) and mid.count(x) == 1:
                        add(la, lb, mid.replace(x, y), "op")
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    add(a, b, "(" + raw[slice(*span(n.left))].decode() + ")", "drop right")
                if isinstance(n.op, (ast.Mult, ast.Div)):
                    add(a, b, "(" + raw[slice(*span(n.left))].decode() + ")", "drop right")
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                la, lb = span(n.left)[1], span(n.comparators[0])[0]
                mid = raw[la:lb].decode()
                m = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "==")}.get(type(n.ops[0]))
                if m:
                    add(la, lb, mid.replace(*m), "cmp")
            elif isinstance(n, ast.BoolOp):
                la, lb = span(n.values[0])[1], span(n.values[1])[0]
                mid = raw[la:lb].decode()
                add(la, lb, mid.replace("and", "or") if "and" in mid else mid.replace("or", "and"), "bool")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                add(a, b, "(" + raw[slice(*span(n.operand))].decode() + ")", "drop minus")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(a, b, "(" + raw[slice(*span(n.operand))].decode() + ")", "drop not")
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(a, b, str(not n.value), "const")
            elif isinstance(n, ast.Constant) and isinstance(n.value, int):
                add(a, b, str(n.value + 1), "const")
                if n.value > 0:
                    add(a, b, str(n.value - 1), "const")
            elif isinstance(n, ast.Constant) and isinstance(n.value, float):
                add(a, b, repr(n.value * 100), "const")
                add(a, b, repr(n.value * 0.01), "const")
            elif isinstance(n, ast.Slice):
                s = raw[a:b].decode()
                if s.strip() == ":N":
                    add(a, b, "N:", "slice")
                elif s.strip() == "N:":
                    add(a, b, ":N", "slice")
            elif isinstance(n, ast.IfExp):
                add(*span(n.test), "True", "cond")
                add(*span(n.test), "False", "cond")
            elif isinstance(n, ast.If):
                t = span(n.test)
                add(*t, "True", "cond")
                add(*t, "False", "cond")
            elif isinstance(n, ast.Attribute) and n.attr in ("any", "all", "max", "min", "ones", "zeros", "ones_like"):
                y = {"any": "all", "all": "any", "max": "min", "min": "max", "ones": "zeros", "zeros": "ones", "ones_like": "zeros_like"}[n.attr]
                add(b - len(n.attr), b, y, "attr")
            elif isinstance(n, ast.Attribute) and n.attr == "copy" and isinstance(parents.get(id(n)), ast.Call):
                pa, pb = span(parents[id(n)])
                add(pa, pb, raw[slice(*span(n.value))].decode(), "drop copy")
            if isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                add(a, b, "pass", "del stmt")
            if isinstance(n, ast.Call) and len(n.args) > 5:
                # swap neighbouring arguments
                pass
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and n.slice.id in ("l", "l_inv", "l_uniq", "indices", "indicesp1"):
                q = {"l": "np.zeros_like(l)", "l_inv": "np.zeros_like(l_inv)", "l_uniq": "np.zeros_like(l_uniq)", "indices": "indicesp1", "indicesp1": "indices"}[n.slice.id]
                add(*span(n.slice), q, "index")
    json.dump(out, open("/tmp/mut/list.json", "w"))
    print(len(out))


def tree_of(m):
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mut")
    shutil.copytree("/repo/src", base + "/src")
    p = os.path.join(base, "src/PythonicDISORT", m["file"])
    raw = open(p, "rb").read()
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
    return base


def test_one(i, m):
    base = tree_of(m)
    try:
        shutil.copytree("/repo/pydisotest", base + "/pydisotest")
        e = dict(ENV, PYTHONPATH=base + "/src")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + base], cwd=base + "/pydisotest", env=e, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return False
        return r.returncode == 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


RUN = r'''
import sys, time, json, random
sys.path.insert(0, %r); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); sys.dont_write_bytecode = True
scale = float(sys.argv[1]); order = sys.argv[2:]
from pbt import core
from pbt.props import PROPS
from hypothesis import given, settings, HealthCheck, Phase, seed
import traceback
caught = []
for pid in order:
    P = PROPS[pid]
    n = max(20, int(P.quick * scale))
    def t(case):
        P.check(case)
    f = seed(7)(settings(max_examples=n, deadline=None, database=None, phases=[Phase.generate], suppress_health_check=list(HealthCheck), print_blob=False)(given(P.strategy())(t)))
    try:
        for ex in P.examples(0, 8): t(ex)
        f()
    except core.Violation as e:
        caught.append([pid, str(e)[:160]])
    except Exception as e:
        pk = any("/PythonicDISORT/" in fr.filename for fr in traceback.extract_tb(e.__traceback__))
        caught.append([pid, ("X " if pk else "ERR ") + repr(e)[:160]])
    if caught: break
print("RESULT" + json.dumps(caught))
'''


def dull(m):
    """Changes to warnings or redundant copies, which alter no observable behaviour that a property states."""
    return "warn" in m["ctx"] or (m["why"] == "drop copy" and m["old"].startswith("(")) or "1 - 1e-6" in m["ctx"] or "-0.95" in m["ctx"] or "NFourier > 64" in m["ctx"]


def check_one(i, m, scale, order):
    base = tree_of(m)
    try:
        e = dict(ENV, VERIF_REPO_SRC=base + "/src", PYTHONHASHSEED="0", PYTHONPATH="")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-c", RUN % V, str(scale)] + order, env=e, capture_output=True, text=True, timeout=1200)
        except subprocess.TimeoutExpired:
            return [["TIMEOUT", ""]]
        for l in r.stdout.splitlines():
            if l.startswith("RESULT"):
                return json.loads(l[6:])
        return [["CRASH", r.stderr[-200:]]]
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    os.makedirs("/tmp/mut", exist_ok=True)
    cmd = sys.argv[1]
    j = int(sys.argv[2]) if len(sys.argv) > 2 else 8
    if cmd == "gen":
        gen()
    elif cmd == "tests":
        L = json.load(open("/tmp/mut/list.json"))
        with ThreadPoolExecutor(j) as ex:
            ok = list(ex.map(lambda t: test_one(*t), enumerate(L)))
        S = [dict(m, id=i) for i, (m, o) in enumerate(zip(L, ok)) if o]
        json.dump(S, open("/tmp/mut/surv.json", "w"))
        print(len(L), "mutants,", len(S), "pass the tests")
    elif cmd == "checks":
        S = json.load(open("/tmp/mut/surv.json"))
        scale = float(sys.argv[3]) if len(sys.argv) > 3 else 0.02
        order = sys.argv[4:] or "C04 C17 C12 C14 C02 C03 C16 C20 C18 C19 C25 C10 C06 C07 C05 C01 C23 C08 C09 C11 C13 C15 C21 C22 C24 C26".split()
        done = set()
        if os.path.exists("/tmp/mut/res.jsonl"):
            done = {json.loads(l)["id"] for l in open("/tmp/mut/res.jsonl")}
        S = [m for m in S if m["id"] not in done and not dull(m)]
        import random
        random.Random(5).shuffle(S)
        import threading
        lock = threading.Lock()

        def go(m):
            first = {"subroutines.py": ["C20", "C18", "C19", "C16", "C06", "C27"], "pydisort.py": ["C12", "C27", "C17"]}.get(m["file"], ["C27", "C06"])
            o = first + [x for x in order if x not in first]
            r = check_one(m["id"], m, scale, o)
            with lock:
                open("/tmp/mut/res.jsonl", "a").write(json.dumps(dict(m, caught=r)) + "\n")

        with ThreadPoolExecutor(j) as ex:
            list(ex.map(go, S))
