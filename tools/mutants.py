"""Systematic small changes to celest, to measure what the checks notice.

  mutants.py list                         enumerate mutants (JSON lines)
  mutants.py try LOG ID PROPS...          the given checks on one mutant of a log
  mutants.py run OUT WORKERS [FILTER]     for every mutant: the stable tests, and
                                          for survivors the checks of its file

Each worker keeps a copy of /repo under /tmp/mut, never touching /repo.
"""
import ast
import json
import os
import random
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
import queue

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "units/core.py": "C01 C02 C03 C26", "units/display.py": "C01 C02",
    "units/utils.py": "C01", "units/unit_initialization.py": "C02 C01",
    "units/quantity.py": "C02 C03 C01 C26",
    "time.py": "C14 C15 C13 C26",
    "coordinates/astronomical_quantities.py": "C16 C15 C13 C14 C04 C11 C05 C26",
    "coordinates/nutation_precession_matrices.py": "C04 C26",
    "coordinates/transforms.py": "C08 C05 C06 C04 C10 C09 C07 C26",
    "coordinates/ground_location.py": "C11 C12 C06 C05 C26",
    "coordinates/coordinate.py": "C07 C25 C04 C26",
    "angle_strings.py": "C12", "file_save.py": "C24",
    "encounter/window_handling.py": "C19 C24 C17 C26",
    "encounter/window_generator.py": "C17 C18 C26",
    "satellite.py": "C10 C09 C24 C25 C26",
    "constants.py": "C05 C06 C11 C04",
    "schedule/insertion_operators.py": "C22 C20 C23",
    "schedule/removal_operators.py": "C22 C20",
    "schedule/alns.py": "C21 C20 C23", "schedule/request_handler.py": "C22 C20 C23",
    "schedule/scheduler.py": "C20 C23 C21", "schedule/scheduling_utils.py": "C22 C21 C20",
}
FRAMES = "C25 C24 C07"


def checks_of(path):
    return MAP.get(path, FRAMES if "frames/" in path else "C07").split()


def files():
    for d, _, fs in os.walk(os.path.join(REPO, "celest")):
        for f in sorted(fs):
            if f.endswith(".py"):
                yield os.path.relpath(os.path.join(d, f), os.path.join(REPO, "celest"))


CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<"], ast.Gt: [">=", "<="], ast.GtE: [">"],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"],
       ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.Pow: ["*"], ast.MatMult: ["*"]}


def mutants_of(path):
    full = os.path.join(REPO, "celest", path)
    src = open(full).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, kind):
        a, b = span(n)
        out.append((path, kind, n.lineno, a, b, raw[a:b].decode(), new))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and \
                isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            for m in ast.walk(n.body[0]):
                skip.add(m)
        if isinstance(n, ast.FunctionDef):
            for a in ast.walk(n.args):
                if isinstance(a, ast.arg) and a.annotation:
                    for m in ast.walk(a.annotation):
                        skip.add(m)
            if n.returns:
                for m in ast.walk(n.returns):
                    skip.add(m)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                add(n, "%s %s %s" % (text(n.left), new, text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                add(n, "((%s) %s (%s))" % (text(n.left), new, text(n.right)), "bin")
            if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult)):
                o = {ast.Sub: "-", ast.Div: "/", ast.MatMult: "@"}[type(n.op)]
                add(n, "((%s) %s (%s))" % (text(n.right), o, text(n.left)), "swap")
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                add(n, "(%s)" % text(n.left), "drop")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % text(v) for v in n.values) + ")", "bool")
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                old = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + old.join("(%s)" % text(v) for v in rest) + ")", "booldrop")
        elif isinstance(n, ast.UnaryOp):
            add(n, "(%s)" % text(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "const")
            elif isinstance(v, int):
                add(n, str(v + 1), "const")
                if v > 0:
                    add(n, str(v - 1), "const")
            elif isinstance(v, float):
                add(n, repr(v * 1.0002 if v else 1e-4), "constsmall")
                add(n, repr(-v if v else 0.1), "const")
            elif isinstance(v, str) and v:
                add(n, repr(v + "x"), "str")
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, "not (%s)" % text(n.test), "cond")
        elif isinstance(n, ast.IfExp):
            add(n.test, "not (%s)" % text(n.test), "cond")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    a, b = span(n.args[i])[0], span(n.args[i + 1])[1]
                    mid = raw[span(n.args[i])[1]:span(n.args[i + 1])[0]].decode()
                    out.append((path, "args", n.lineno, a, b, raw[a:b].decode(),
                                text(n.args[i + 1]) + mid + text(n.args[i])))
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                add(n, "(%s)" % text(n.args[0]), "uncall")
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    pass
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            for x, y in (("sin", "cos"), ("cos", "sin"), ("arctan2", "arctan"),
                         ("max", "min"), ("min", "max"), ("deepcopy", "copy"), ("copy", "asarray"),
                         ("ceil", "floor"), ("floor", "ceil"), ("all", "any"), ("any", "all")):
                if name == x and (x, y) != ("arctan2", "arctan") and (x, y) != ("copy", "asarray"):
                    f = text(n.func)
                    add(n.func, f[:-len(x)] + y, "func")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Continue, ast.Break)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.Return):
                if n.value is not None:
                    add(n, "return None", "return")
                continue
            add(n, "pass", "stmt")
        elif isinstance(n, ast.Raise):
            add(n, "pass", "stmt")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, text(n.value), "slice")
    for n in ast.walk(tree):            # refusals dropped
        if isinstance(n, ast.Raise):
            add(n, "pass", "raise")
    seen, result = set(), []
    for m in out:
        k = m[3:]
        if k not in seen:
            seen.add(k)
            result.append(m)
    return result


def all_mutants():
    ms = []
    for f in files():
        ms += mutants_of(f)
    return [dict(id="%s:%d:%s:%d" % (m[0], m[2], m[1], i), path=m[0], kind=m[1], line=m[2],
                 a=m[3], b=m[4], old=m[5], new=m[6]) for i, m in enumerate(ms)]


STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def node(t):
    mod, test = t.split("::")
    parts = mod.split(".")
    i = len(parts)
    while i and not os.path.exists(os.path.join(REPO, *parts[:i]) + ".py"):
        i -= 1
    return "/".join(parts[:i]) + ".py" + "".join("::" + p for p in parts[i:]) + "::" + test


def env(copy, ev):
    return dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=copy,
                PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", XDG_CONFIG_HOME="/opt/vp/astropy-config",
                PYTHONPYCACHEPREFIX="/nonexistent", OMP_NUM_THREADS="1",
                OPENBLAS_NUM_THREADS="1", VERIF_REPO=copy, VERIF_EVIDENCE=ev, HOME="/root")


def tests_pass(copy, e):
    r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "pytest", "-q", "-x",
                        "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=120",
                        "--tb=no", *[node(t) for t in STABLE]], cwd=copy, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
    return r.returncode == 0, r.stdout.decode()[-300:]


def check(copy, e, prop, limit=900):
    try:
        r = subprocess.run([os.path.join(VERIF, "check"), prop, "quick"], env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stdout.decode()


def one(m, copy, ev):
    e = env(copy, ev)
    full = os.path.join(copy, "celest", m["path"])
    raw = open(os.path.join(REPO, "celest", m["path"]), "rb").read()
    new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
    res = dict(m)
    try:
        compile(new, full, "exec")
    except SyntaxError:
        res["result"] = "invalid"
        return res
    try:
        open(full, "wb").write(new)
        t0 = time.time()
        try:
            ok, tail = tests_pass(copy, e)
        except subprocess.TimeoutExpired:
            ok, tail = False, "timeout"
        res["tests_s"] = round(time.time() - t0, 1)
        if not ok:
            res["result"] = "killed"
            return res
        res["result"] = "MISSED"
        res["checks"] = {}
        for p in checks_of(m["path"]):
            rc, txt = check(copy, e, p)
            res["checks"][p] = rc
            if rc == 1 and "VIOLATION property=%s" % p in txt:
                res["result"] = "caught"
                res["by"] = p
                res["why"] = txt.split("\n")[1][:300] if "\n" in txt else ""
                break
            if rc not in (0, 1):
                res["note"] = txt[-300:]
        return res
    finally:
        open(full, "wb").write(raw)


def main():
    ms = all_mutants()
    if sys.argv[1] == "list":
        for m in ms:
            print(json.dumps(m))
        return
    if sys.argv[1] == "try":                # try LOG ID PROPS...: one mutant, given checks
        m = next(m for m in map(json.loads, open(sys.argv[2])) if m["id"] == sys.argv[3])
        copy = "/tmp/mut/try-%d" % os.getpid()
        subprocess.run(["cp", "-a", REPO, copy], check=True)
        try:
            full = os.path.join(copy, "celest", m["path"])
            raw = open(full, "rb").read()
            open(full, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
            print(m["id"], m["old"][:80], "=>", m["new"][:80])
            for p in sys.argv[4:]:
                rc, txt = check(copy, env(copy, copy + "-ev"), p)
                print(p, rc, txt[:int(os.environ.get("N", "500"))])
        finally:
            subprocess.run(["rm", "-rf", copy, copy + "-ev"])
        return
    outfile, workers = sys.argv[2], int(sys.argv[3])
    filt = sys.argv[4] if len(sys.argv) > 4 else ""
    done = set()
    if os.path.exists(outfile):
        done = {json.loads(l)["id"] for l in open(outfile)}
    ms = [m for m in ms if m["id"] not in done and filt in m["id"]]
    random.Random(1).shuffle(ms)
    pool = queue.Queue()
    tag = os.path.basename(outfile)
    for i in range(workers):
        c = "/tmp/mut/%s-w%d" % (tag, i)
        subprocess.run(["rm", "-rf", c], check=True)
        subprocess.run(["cp", "-a", REPO, c], check=True)
        pool.put((c, c + "-ev"))
    with open(outfile, "a") as f, ThreadPoolExecutor(workers) as ex:
        def job(m):
            w = pool.get()
            try:
                return one(m, *w)
            finally:
                pool.put(w)
        for r in ex.map(job, ms):
            f.write(json.dumps(r) + "\n")
            f.flush()


main()
