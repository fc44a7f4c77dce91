"""Mutation sweep: mutate.py OUT.jsonl CHECK[,CHECK] FILE [FILE..]  [--max N] [--jobs K]

Changes one operator, constant, condition, argument or statement of FILE (relative to src/wax) at a time in scratch
copies of the repository, runs the quick check(s), and for the mutants they miss the unit tests of the directory.
A survivor of both is either equivalent or a hole in a check."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    out = []

    def put(n, new, kind):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append((n.lineno, kind, b[s:e].decode(), new, b[:s].decode() + new + b[e:].decode()))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                doc.add(n.body[0])
                doc.add(n.body[0].value)
            for d in getattr(n, "decorator_list", []):
                pass
            for a in ast.walk(getattr(n, "returns", None) or ast.Pass()):
                doc.add(a)
            if isinstance(n, ast.FunctionDef):
                for a in n.args.args + n.args.kwonlyargs:
                    for x in ast.walk(a.annotation or ast.Pass()):
                        doc.add(x)
        if isinstance(n, ast.AnnAssign):
            for x in ast.walk(n.annotation):
                doc.add(x)
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr, ast.Assert)):
            for x in ast.walk(n):
                doc.add(x)
        if isinstance(n, ast.Call) and text(n.func).split(".")[0] in ("warnings", "logger", "print", "cast", "TypeVar"):
            for x in ast.walk(n):
                doc.add(x)
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP.get(type(n.ops[0]))
            if op:
                put(n, f"{text(n.left)} {op} {text(n.comparators[0])}", "cmp")
                if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    neg = {ast.Lt: ">=", ast.LtE: ">", ast.Gt: "<=", ast.GtE: "<"}[type(n.ops[0])]
                    put(n, f"{text(n.left)} {neg} {text(n.comparators[0])}", "cmpneg")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "bin")
        elif isinstance(n, ast.BoolOp):
            op = " and " if isinstance(n.op, ast.Or) else " or "
            put(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f"bool({text(n.operand)})", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Invert)):
            put(n, f"({text(n.operand)})", "unary")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), "const")
            elif isinstance(n.value, (int, float)):
                put(n, f"{n.value + 1}", "const")
                if n.value not in (0, 1):
                    put(n, f"{n.value - 1}", "const")
        elif isinstance(n, ast.IfExp):
            put(n, f"({text(n.orelse)} if {text(n.test)} else {text(n.body)})", "ifexp")
        elif isinstance(n, ast.If):
            put(n.test, f"not ({text(n.test)})", "ifneg")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    args = [text(a) for a in n.args]
                    args[i], args[i + 1] = args[i + 1], args[i]
                    s, e = span(n)
                    rest = [f"{k.arg}={text(k.value)}" if k.arg else f"**{text(k.value)}" for k in n.keywords]
                    put(n, f"{text(n.func)}({', '.join(args + rest)})", "swapargs")
            for k in n.keywords:
                if k.arg:
                    rest = [text(a) for a in n.args] + [f"{q.arg}={text(q.value)}" if q.arg else f"**{text(q.value)}" for q in n.keywords if q is not k]
                    put(n, f"{text(n.func)}({', '.join(rest)})", "dropkw")
            for i, a in enumerate(n.args):
                if len(n.args) > 1 and i == len(n.args) - 1 and not isinstance(a, ast.Starred):
                    rest = [text(q) for q in n.args[:-1]] + [f"{q.arg}={text(q.value)}" if q.arg else f"**{text(q.value)}" for q in n.keywords]
                    put(n, f"{text(n.func)}({', '.join(rest)})", "droparg")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and n not in doc:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            put(n, "pass", "delstmt")
        if isinstance(n, ast.AugAssign):
            put(n, f"{text(n.target)} = {text(n.value)}", "aug")
        if isinstance(n, (ast.Break, ast.Continue)):
            put(n, "pass", "delstmt")
    seen, res = set(), []
    for m in out:
        if m[4] in seen:
            continue
        seen.add(m[4])
        try:
            compile(m[4], "x", "exec")
        except SyntaxError:
            continue
        res.append(m)
    return res


def run(cmd, env, timeout):
    try:
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=timeout, start_new_session=True)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, ""


def main():
    a = sys.argv[1:]
    opt = {}
    for k in ("--max", "--jobs", "--lines", "--kinds"):
        if k in a:
            i = a.index(k)
            opt[k] = a[i + 1]
            del a[i:i + 2]
    out, checks, files = a[0], a[1].split(","), a[2:]
    jobs = int(opt.get("--jobs", 2))
    cache = "/tmp/mut/cache"
    os.makedirs(cache, exist_ok=True)
    pool = Queue()
    for k in range(jobs):
        d = f"/tmp/mut/{os.getpid()}-{k}"
        shutil.copytree("/tmp/p/repo/src", f"{d}/src", ignore=shutil.ignore_patterns("__pycache__"))
        for f in ("setup.cfg", "pyproject.toml", "conftest.py", "setup.py"):
            if os.path.exists(f"/tmp/p/repo/{f}"):
                shutil.copy(f"/tmp/p/repo/{f}", d)
        pool.put(d)
    done = set()
    if os.path.exists(out):
        done = {(j["file"], j["line"], j["kind"], j["old"], j["new"]) for j in map(json.loads, open(out))}
    todo = []
    for f in files:
        src = open(f"/tmp/p/repo/src/wax/{f}").read()
        todo += [(f, src, m) for m in mutants(src) if (f, *m[:4]) not in done]
    if "--lines" in opt:
        lo, hi = map(int, opt["--lines"].split("-"))
        todo = [t for t in todo if lo <= t[2][0] <= hi]
    random.Random(5).shuffle(todo)
    todo = todo[:int(opt.get("--max", 10 ** 6))]
    print(len(todo), "mutants", flush=True)

    def one(t):
        f, src, m = t
        d = pool.get()
        p = f"{d}/src/wax/{f}"
        try:
            open(p, "w").write(m[4])
            env = dict(os.environ, VERIF_REPO=d, VERIF_TLC_CACHE=cache, VERIF_MUT="1")
            res = {}
            verdict = "missed"
            for c in checks:
                rc, o = run([f"{VERIF}/check", c, "quick"], env, 600)
                res[c] = rc
                if rc == 1:
                    verdict = "caught"
                    break
            if verdict == "missed":
                td = os.path.dirname(p)
                e = dict(os.environ, PYTHONPATH=f"{d}/src", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg")
                base = os.path.basename(p)[:-3]
                near = [os.path.join(td, x) for x in os.listdir(td) if x.endswith("_test.py") and x.startswith(base)] or [td]
                rc, o = run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", *near], e, 400)
                if rc != 0:
                    verdict = "tests"
            j = dict(file=f, line=m[0], kind=m[1], old=m[2], new=m[3], rc=res, verdict=verdict)
            with open(out, "a") as h:
                h.write(json.dumps(j) + "\n")
            if verdict == "missed":
                print(f"{f}:{m[0]} {m[1]} {m[2][:110]!r} -> {m[3][:110]!r} {res}", flush=True)
        finally:
            open(p, "w").write(src)
            pool.put(d)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    js = [json.loads(l) for l in open(out)]
    print({v: sum(j["verdict"] == v for j in js) for v in ("caught", "tests", "missed")})
    while not pool.empty():
        shutil.rmtree(pool.get(), ignore_errors=True)


main()
