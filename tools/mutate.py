"""Development aid, not registered as a check: small changes of the source, one at a time, against the quick cases of the
checks (in one process each, stopping at the first violation).  What survives is either equivalent or a gap.

    /opt/venv/bin/python -B tools/mutate.py OUT.jsonl [--base /repo] [--files ik.py ...] [--stride k/n] [--budget s]
"""
import argparse
import ast
import json
import os
import random
import shutil
import signal
import sys
import time

os.environ.update(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "src/pytorch_kinematics/"
ORDER = {
    "chain.py": "C03 C07 C13 C01 C04 C02 C06 C05 C08 C09 C11 C10",
    "frame.py": "C07 C01 C13 C08 C10 C12 C11",
    "ik.py": "C25 C27 C18 C19 C20 C24",
    "jacobian.py": "C04", "mjcf.py": "C12", "sdf.py": "C11", "urdf.py": "C10",
    "urdf_parser_py/urdf.py": "C28 C10", "urdf_parser_py/sdf.py": "C28 C11",
    "urdf_parser_py/xml_reflection/core.py": "C28 C10 C11", "urdf_parser_py/xml_reflection/basics.py": "C28",
    "transforms/math.py": "C23 C16 C26 C22", "transforms/so3.py": "C23 C26 C22", "transforms/perturbation.py": "C24 C22",
    "transforms/rotation_conversions.py": "C15 C14 C16 C23 C24 C26 C22", "transforms/transform3d.py": "C17 C14 C22 C24 C26",
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.LtE: [ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
MODULES = {"torch", "math", "np", "tf", "rotation_conversions", "F", "os", "itertools", "functools", "warnings", "etree", "copy", "frame", "chain", "mujoco", "logger", "xmlr", "yaml", "string"}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))

    def off(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and "debug" in ast.unparse(n.test):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in ("__repr__", "from_parameter_server", "from_xml_file"):
                skip.update(id(x) for x in ast.walk(n))
            for d in getattr(n, "decorator_list", []):
                skip.update(id(x) for x in ast.walk(d))
        for f in ("annotation", "returns"):
            if getattr(n, f, None) is not None:
                skip.update(id(x) for x in ast.walk(getattr(n, f)))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))
    out = []

    def put(n, new, what):
        a, b = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
        if src[a:b] != new:
            out.append(dict(start=a, end=b, new=new, line=n.lineno, what=what, old=src[a:b][:120]))

    U = ast.unparse
    P = lambda e: "(" + U(e) + ")"
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            if isinstance(n, (ast.Raise, ast.Assert)):
                put(n, "pass", "delete")
            continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for new in CMP.get(type(o), []):
                    m = ast.Compare(n.left, n.ops[:i] + [new()] + n.ops[i + 1:], n.comparators)
                    put(n, P(m), "compare")
        elif isinstance(n, ast.BoolOp):
            put(n, P(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)), "and-or")
            for v in n.values:
                put(n, P(v), "operand")
        elif isinstance(n, ast.BinOp):
            if type(n.op) in BIN:
                put(n, P(ast.BinOp(n.left, BIN[type(n.op)](), n.right)), "operator")
            if isinstance(n.op, ast.MatMult):
                put(n, P(ast.BinOp(n.right, n.op, n.left)), "swap")
            if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                put(n, P(n.left), "left")
                if not isinstance(n.op, (ast.Pow, ast.Div)):
                    put(n, P(n.right), "right")
        elif isinstance(n, ast.UnaryOp):
            put(n, P(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v), "bool")
            elif isinstance(v, int):
                put(n, str(v + 1), "number")
                if v:
                    put(n, str(v - 1), "number")
            elif isinstance(v, float):
                put(n, repr(v * 1.5 if v else .5), "number")
        elif isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, "True", "test")
            put(n.test, "False", "test")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in MODULES) and not U(n.func.value).startswith("super("):
                put(n, P(n.func.value), "drop-call")
            for i in range(len(n.keywords)):
                put(n, U(ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:])), "drop-keyword")
            if len(n.args) >= 2:
                put(n, U(ast.Call(n.func, [n.args[1], n.args[0]] + n.args[2:], n.keywords)), "swap-args")
            if len(n.args) >= 2:
                put(n, U(ast.Call(n.func, n.args[:-1], n.keywords)), "drop-arg")
        elif isinstance(n, ast.Slice):
            pass
        elif isinstance(n, (ast.AugAssign, ast.Assign)):
            t = n.target if isinstance(n, ast.AugAssign) else n.targets[0]
            if isinstance(n, ast.AugAssign) or isinstance(t, (ast.Attribute, ast.Subscript)):
                put(n, "pass", "delete")
            elif isinstance(t, ast.Name) and sum(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(n.value)):
                put(n, "pass", "delete")
        elif isinstance(n, ast.Expr):
            put(n, "pass", "delete")
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "delete")
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name):
            pass
    for d in out:
        d["text"] = src[:d["start"]] + d["new"] + src[d["end"]:]
    good, seen = [], {src}
    for d in out:
        if d["text"] in seen:
            continue
        seen.add(d["text"])
        try:
            compile(d["text"], path, "exec")
            good.append(d)
        except SyntaxError:
            pass
    return good


def attempt(base, fn, mut, budget, W):
    """in the child: run the checks, return (verdict, detail)"""
    os.makedirs(W)
    for e in os.listdir(base):
        if e not in ("src", ".git"):
            os.symlink(os.path.join(base, e), os.path.join(W, e))
    shutil.copytree(os.path.join(base, "src"), os.path.join(W, "src"), ignore=shutil.ignore_patterns("__pycache__"))
    if mut is not None:
        with open(os.path.join(W, PKG, fn), "w") as f:
            f.write(mut["text"])
    os.environ["VERIF_REPO"] = W
    sys.path[:0] = [os.path.join(W, "src"), HERE]
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    os.dup2(null, 1)
    import importlib
    try:
        import pytorch_kinematics as pk
        assert pk.__file__.startswith(W)
    except Exception as e:
        return "killed", "import " + repr(e)[:100]
    from mc import core
    spent = {}
    for c in ORDER[fn].split():
        try:
            mod = importlib.import_module("mc.checks." + c.lower())
            cases = list(mod.cases("quick"))
        except Exception as e:
            return "killed", c + " setup " + repr(e)[:100]
        random.Random(1).shuffle(cases)
        known = core.load_known(c)
        t = time.time()
        for case in cases:
            cx = core.run_one(mod, case, 120)
            for sig, msg in cx.fails:
                if sig not in known:
                    return "killed", "%s %s" % (c, sig)
            if time.time() - t > budget:
                break
        spent[c] = round(time.time() - t, 1)
    return "SURVIVED", json.dumps(spent)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--base", default="/repo")
    ap.add_argument("--files", nargs="*")
    ap.add_argument("--stride", default="0/1")
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--count", action="store_true")
    ap.add_argument("--lines", help="a-b")
    a = ap.parse_args()
    k, m = map(int, a.stride.split("/"))
    todo = []
    for fn in (a.files or ORDER):
        ms = mutants(os.path.join(a.base, PKG, fn))
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            ms = [x for x in ms if lo <= x["line"] <= hi]
        print(fn, len(ms))
        todo += [(fn, x) for x in ms]
    if a.count:
        return
    todo = todo[k::m]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"], d["old"], d["new"]))
    todo = [(fn, x) for fn, x in todo if (fn, x["line"], x["what"], x["old"], x["new"]) not in done]
    import torch, numpy, scipy, mujoco, lxml.etree, yaml  # noqa
    torch.set_num_threads(1)
    root = "/dev/shm/mut-%d" % os.getpid()
    os.makedirs(root)
    running = {}
    i = 0
    try:
        while i < len(todo) or running:
            while i < len(todo) and len(running) < a.jobs:
                fn, x = todo[i]
                W = "%s/%d" % (root, i)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.setsid()
                    os.close(r)
                    os.dup2(w, 9)
                    try:
                        v = attempt(a.base, fn, x, a.budget, W)
                    except BaseException as e:  # noqa
                        v = ("killed", "crash " + repr(e)[:200])
                    os.write(9, json.dumps(v).encode())
                    os._exit(0)
                os.close(w)
                running[pid] = (fn, x, r, W, time.time())
                i += 1
            time.sleep(.05)
            for pid in list(running):
                fn, x, r, W, t = running[pid]
                p, st = os.waitpid(pid, os.WNOHANG)
                if p == 0:
                    if time.time() - t < 1500:
                        continue
                    os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                b = os.read(r, 100000)
                os.close(r)
                v = json.loads(b) if b else ("killed", "died")
                del running[pid]
                shutil.rmtree(W, ignore_errors=True)
                with open(a.out, "a") as f:
                    f.write(json.dumps(dict(file=fn, line=x["line"], what=x["what"], old=x["old"], new=x["new"], verdict=v[0], why=v[1], s=round(time.time() - t, 1))) + "\n")
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
