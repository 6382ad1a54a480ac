#!/usr/bin/env python3
"""Development tool (no check uses it): mutants of a Python file and the checks which notice them.

mutate.py FILE CHECK[,CHECK..] [--jobs N] [--every K] [--offset O] [--out LOG]

Each mutant (one operator, constant, condition, keyword or statement changed) is made in a copy of the repository and the checks run on it
(with --quick limits). Prints the mutants which no check notices.
"""
import argparse, ast, copy, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr]}
SWAP = {"min": "max", "max": "min", "left": "right", "right": "left", "<": ">", ">": "<", "mergesort": "quicksort", "argmin": "argmax", "argmax": "argmin", "zeros": "ones", "any": "all", "all": "any",
        "int32": "int64", "int64": "int32", "uint32": "int32", "uint64": "int64", "float32": "float64", "float64": "float32", "SUM": "MAX", "MAX": "SUM", "MIN": "MAX", "gather": "bcast", "Gather": "Bcast"}


def mutants(src):
    """(line, description, new source segment edits)"""
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
    out = []

    def put(node, new, what):
        out.append((node, new, what))
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for o in CMP.get(type(op), []):
                    m = copy.deepcopy(n)
                    m.ops[i] = o()
                    put(n, m, "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)) and not isinstance(getattr(n.left, "value", 0), int):
                continue
            for o in BIN[type(n.op)]:
                m = copy.deepcopy(n)
                m.op = o()
                put(n, m, "arith")
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)][0]()
            put(n, m, "aug")
            put(n, ast.Pass(), "delete")
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            put(n, m, "bool")
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                put(n, m.values[0] if len(m.values) == 1 else m, "drop operand")
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub)):
                put(n, copy.deepcopy(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, ast.Constant(not n.value), "constant")
            elif isinstance(n.value, int):
                put(n, ast.Constant(n.value + 1), "constant")
                if n.value > 0:
                    put(n, ast.Constant(n.value - 1), "constant")
            elif isinstance(n.value, str) and n.value in SWAP:
                put(n, ast.Constant(SWAP[n.value]), "string")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            m = copy.deepcopy(n)
            m.attr = SWAP[n.attr]
            put(n, m, "attribute")
        elif isinstance(n, (ast.If, ast.IfExp)):
            m = copy.deepcopy(n.test)
            put(n.test, ast.UnaryOp(ast.Not(), m), "negate")
            put(n.test, ast.Constant(True), "always")
            put(n.test, ast.Constant(False), "never")
        elif isinstance(n, ast.Slice):
            for k in ("lower", "upper", "step"):
                if getattr(n, k) is not None:
                    m = copy.deepcopy(n)
                    setattr(m, k, None)
                    put(n, m, "slice")
        elif isinstance(n, ast.Call) and n.keywords:
            for i, k in enumerate(n.keywords):
                if k.arg:
                    m = copy.deepcopy(n)
                    del m.keywords[i]
                    put(n, m, "drop keyword " + k.arg)
        elif isinstance(n, (ast.Assign, ast.Expr, ast.Raise, ast.Break, ast.Continue, ast.Delete)):
            put(n, ast.Pass(), "delete")
    lines = src.encode().split(b"\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    b = src.encode()
    res = []
    for n, new, what in out:
        a = off[n.lineno - 1] + n.col_offset
        e = off[n.end_lineno - 1] + n.end_col_offset
        text = ast.unparse(ast.fix_missing_locations(new))
        if isinstance(n, ast.expr) and not isinstance(n, (ast.Slice, ast.Constant)):
            text = "(" + text + ")"
        old = b[a:e].decode()
        if text == old:
            continue
        s = (b[:a] + text.encode() + b[e:]).decode()
        try:
            compile(s, "x", "exec")
        except SyntaxError:
            continue
        res.append((n.lineno, what, " ".join(old.split())[:90], " ".join(text.split())[:90], s))
    res.sort(key=lambda x: x[0])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--nproc", type=int, default=2)
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--limit", type=float, default=300)
    ap.add_argument("--lines", default="")
    a = ap.parse_args()
    repo = os.environ.get("MUT_REPO", "/repo")
    src = open(os.path.join(repo, a.file)).read()
    ms = mutants(src)
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        ms = [m for m in ms if lo <= m[0] <= hi]
    ms = ms[a.offset::a.every]
    top = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    free = []
    lock = threading.Lock()
    for j in range(a.jobs):
        d = f"{top}/{j}"
        os.mkdir(d)
        subprocess.check_call(["cp", "-a", repo, d + "/repo"])
        subprocess.check_call(["cp", "-a", ROOT, d + "/verif"])
        free.append(d)
    stats = {}

    def work(m):
        with lock:
            d = free.pop()
        try:
            with open(f"{d}/repo/{a.file}", "w") as f:
                f.write(m[4])
            res = "SURVIVED"
            for c in a.checks.split(","):
                env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick", VERIF_NPROC=str(a.nproc), VERIF_CASE_LIMIT="30")
                p = subprocess.Popen(["./run", c], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
                try:
                    o, _ = p.communicate(timeout=a.limit)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9)
                    p.communicate()
                    res = "TIMEOUT " + c
                    break
                if p.returncode == 1 and "VIOLATION" in o:
                    res = "killed"
                    break
                if p.returncode:
                    res = f"BROKEN {c} rc={p.returncode} {o.strip()[-200:]!r}"
                    break
            with lock:
                stats[res.split()[0]] = stats.get(res.split()[0], 0) + 1
                if res != "killed":
                    print(f"{res} {a.file}:{m[0]} {m[1]}: {m[2]}  ->  {m[3]}", flush=True)
        finally:
            with lock:
                free.append(d)
    try:
        with ThreadPoolExecutor(a.jobs) as ex:
            list(ex.map(work, ms))
    finally:
        shutil.rmtree(top)
    print(a.file, len(ms), stats, flush=True)


if __name__ == "__main__":
    main()
