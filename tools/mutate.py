#!/usr/bin/env python3
"""Measures the sensitivity of the checks: mutants of /repo/shellous that the
existing test suite does not kill are run against the checks.

usage: mutate.py list                     -> number of mutants for each file
       mutate.py tests OUT.jsonl N [SEED] -> N random mutants against the test suite, in scratch copies
       mutate.py checks IN.jsonl OUT.jsonl [BUDGET] -> survivors against the checks of the properties
Everything runs in copies under /tmp that are removed afterwards; /repo is only read.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["command", "harvest", "pipeline", "prompt", "pty_util", "redirect", "result", "runner", "util", "watcher", "log"]
SKIP_CALLS = {"LOGGER", "_logger"}
# properties that watch (mostly) this file, most likely first
WATCH = {
    "command": "P15 P17 P16 P26 P05 P21 P02 P10 P24 P25",
    "harvest": "P20 P09 P10 P24 P27 P12",
    "pipeline": "P06 P15 P18 P24 P08 P02 P01 P14",
    "prompt": "P13 P14 P31 P25 P30 P29 P27 P19",
    "pty_util": "P19 P14 P07 P25 P09 P28 P29 P30",
    "redirect": "P02 P01 P29 P30 P18 P03 P15 P24 P16 P14",
    "result": "P05 P06 P03 P04",
    "runner": "P07 P08 P09 P10 P11 P12 P27 P24 P01 P02 P03 P05 P06 P18 P19 P21 P23 P04 P20 P28 P29 P30 P31 P26 P17",
    "util": "P02 P04 P07 P01 P09 P19 P10 P26",
    "watcher": "P22 P08 P09 P21 P05 P07",
    "log": "P25 P10 P27 P09 P07 P12",
}


def src(f):
    return open(f"{REPO}/shellous/{f}.py").read()


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.offs = [0]
        for ln in self.lines:
            self.offs.append(self.offs[-1] + len(ln.encode()))
        self.bytes = text.encode()
        self.out = []
        self.fn = []

    def span(self, n):
        return self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.bytes[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.span(n)
        self.out.append({"line": n.lineno, "a": a, "b": b, "new": new, "kind": kind, "old": self.seg(n), "fn": ".".join(self.fn)})

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "__str__", "_log", "_log_send"):
            return
        self.fn.append(n.name)
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    def visit_Assert(self, n):
        pass

    def is_log(self, n):
        return any(s in self.seg(n).split("(")[0] for s in ("LOGGER", "_logger"))

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if self.is_log(n):
            return
        if self.fn:
            self.add(n, "pass", "delete-call")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if self.fn and len(self.fn) > 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, "pass", "delete-assign")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "delete-assign")
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_If(self, n):
        t = self.seg(n.test)
        if "LOG_" in t or "sys.platform" in t or "TYPE_CHECKING" in t or "BSD" in t or "MACOS" in t:
            for s in n.body + n.orelse:
                self.visit(s)
            return
        self.add(n.test, f"(not ({t}))", "negate")
        self.add(n.test, "False", "if-false")
        self.add(n.test, "True", "if-true")
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n.test, f"(not ({self.seg(n.test)}))", "negate")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        vals = [self.seg(v) for v in n.values]
        for i in range(len(vals)):
            rest = vals[:i] + vals[i + 1 :]
            op = " and " if isinstance(n.op, ast.And) else " or "
            self.add(n, "(" + op.join(f"({v})" for v in rest) + ")", "drop-operand")
        self.generic_visit(n)

    def visit_Compare(self, n):
        m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            self.add(n, f"{self.seg(n.left)} {m[type(n.ops[0])]} {self.seg(n.comparators[0])}", "compare")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        m = {ast.Add: "-", ast.Sub: "+"}
        if type(n.op) in m:
            self.add(n, f"{self.seg(n.left)} {m[type(n.op)]} {self.seg(n.right)}", "arith")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.add(n, repr(not n.value), "flip")
        elif type(n.value) is int and self.fn:
            self.add(n, repr(n.value + 1), "int+1")
            if n.value > 0:
                self.add(n, repr(n.value - 1), "int-1")

    def visit_Call(self, n):
        if self.is_log(n):
            return
        for k in n.keywords:
            if k.arg is None:
                continue
            a, b = self.span(k)
            # remove the keyword and the comma around it
            e = b
            while e < len(self.bytes) and self.bytes[e : e + 1] in b" \n\t":
                e += 1
            if self.bytes[e : e + 1] == b",":
                b = e + 1
            self.out.append({"line": k.lineno, "a": a, "b": b, "new": "", "kind": "drop-kw", "old": self.bytes[a:b].decode(), "fn": ".".join(self.fn)})
        self.generic_visit(n)

    def visit_Try(self, n):
        for h in n.handlers:
            if isinstance(h.type, ast.Tuple):
                el = [self.seg(e) for e in h.type.elts]
                for i in range(len(el)):
                    rest = el[:i] + el[i + 1 :]
                    self.add(h.type, "(" + ", ".join(rest) + ",)", "drop-except")
            elif h.type is not None:
                self.add(h.type, "ZeroDivisionError", "no-except")
            if len(h.body) and not isinstance(h.body[-1], ast.Raise):
                pass
            for s in h.body:
                if isinstance(s, ast.Raise) and s.exc is None:
                    self.add(s, "pass", "swallow")
        for s in n.finalbody:
            if not isinstance(s, ast.Expr):
                self.add(s, "pass", "delete-finally") if s.lineno == s.end_lineno else None
        self.generic_visit(n)

    def visit_Await(self, n):
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and self.fn and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.add(n, "return None", "return-none")
        self.generic_visit(n)

    def visit_Break(self, n):
        self.add(n, "continue", "break")

    def visit_Continue(self, n):
        self.add(n, "break", "continue")


def fixed_lines(f):
    "Lines that our own commits own."
    out = subprocess.run(["git", "-C", REPO, "blame", "-s", "ec43b50..HEAD", "--", f"shellous/{f}.py"], capture_output=True, text=True).stdout
    return {i for i, ln in enumerate(out.splitlines(), 1) if not ln.startswith("^")}


def mutants():
    out = []
    for f in FILES:
        text = src(f)
        fi = Finder(text)
        fi.visit(ast.parse(text))
        own = fixed_lines(f)
        for m in fi.out:
            m["file"] = f
            m["ours"] = m["line"] in own
            new = (fi.bytes[: m["a"]] + m["new"].encode() + fi.bytes[m["b"] :]).decode()
            try:
                if ast.dump(ast.parse(new)) == ast.dump(ast.parse(text)):
                    continue
            except SyntaxError:
                continue
            m["id"] = hashlib.sha1(f"{f}{m['a']}{m['b']}{m['new']}".encode()).hexdigest()[:10]
            out.append(m)
    return out


def apply(m, root):
    p = f"{root}/shellous/{m['file']}.py"
    b = open(f"{REPO}/shellous/{m['file']}.py", "rb").read()
    open(p, "wb").write(b[: m["a"]] + m["new"].encode() + b[m["b"] :])


local = threading.local()
roots = []


def scratch():
    if not hasattr(local, "root"):
        local.root = tempfile.mkdtemp(prefix="vf-mut-", dir="/tmp")
        roots.append(local.root)
        subprocess.run(["cp", "-a", REPO, local.root + "/r"], check=True)
    return local.root + "/r"


def run_tests(m):
    r = scratch()
    apply(m, r)
    base = json.load(open("/opt/vp/BASELINE.json"))
    t = tempfile.mkdtemp(dir=local.root)
    try:
        env = {k: v for k, v in os.environ.items() if k != "SHELLOUS_TRACE"}
        env |= {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8"}
        p = subprocess.run(
            ["timeout", "-k", "5", "400", "/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-s", "-p", "no:cacheprovider", "-p", "no:randomly", "--timeout=60", f"--basetemp={t}/t", "tests", "-k", "not test_pty_ctermid"],
            cwd=r, env=env, capture_output=True, text=True, errors="replace", stdin=subprocess.DEVNULL,
        )
        last = [ln for ln in p.stdout.splitlines() if "passed" in ln or "failed" in ln or "error" in ln][-1:]
        failed = [ln for ln in p.stdout.splitlines() if "FAILED" in ln][:1]
        return {**m, "killed": p.returncode != 0, "rc": p.returncode, "last": last, "failed": failed}
    finally:
        shutil.rmtree(t, ignore_errors=True)
        shutil.copy(f"{REPO}/shellous/{m['file']}.py", f"{r}/shellous/{m['file']}.py")


def run_checks(m, budget):
    r = scratch()
    apply(m, r)
    try:
        res = {}
        for p in WATCH[m["file"]].split():
            q = subprocess.run(["timeout", "-k", "5", "700", "python3", "-B", VERIF + "/check.py", p, "--budget", str(budget)], env={**os.environ, "VF_REPO": r}, capture_output=True, text=True, errors="replace")
            res[p] = q.returncode
            if q.returncode != 0:
                lines = [ln for ln in q.stdout.splitlines() if ln.startswith("  [")][:1]
                return {**m, "caught": p, "how": [x[:300] for x in lines], "rcs": res}
        return {**m, "caught": None, "rcs": res}
    finally:
        shutil.copy(f"{REPO}/shellous/{m['file']}.py", f"{r}/shellous/{m['file']}.py")


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        ms = mutants()
        for f in FILES:
            print(f, sum(m["file"] == f for m in ms))
        print(len(ms))
        return
    lock = threading.Lock()
    jobs = int(os.environ.get("JOBS", "6"))
    if cmd == "tests":
        ms = mutants()
        seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
        random.Random(seed).shuffle(ms)
        skip = set(os.environ.get("SKIP", "negate return-none int+1 int-1").split())
        ms = [m for m in ms if m["kind"] not in skip]
        only = os.environ.get("ONLY", "").split()
        if only:
            ms = [m for m in ms if m["file"] in only]
        done = set()
        if os.path.exists(sys.argv[2]):
            done = {json.loads(x)["id"] for x in open(sys.argv[2])}
        todo = [m for m in ms if m["id"] not in done][: int(sys.argv[3])]
        fn, out = run_tests, sys.argv[2]
    else:
        todo = [m for m in map(json.loads, open(sys.argv[2])) if not m["killed"]]
        out = sys.argv[3]
        done = set()
        if os.path.exists(out):
            done = {json.loads(x)["id"] for x in open(out)}
        todo = [m for m in todo if m["id"] not in done]
        budget = float(sys.argv[4]) if len(sys.argv) > 4 else 20
        fn = lambda m: run_checks(m, budget)

    def one(m):
        try:
            r = fn(m)
        except Exception as ex:
            r = {**m, "error": repr(ex)}
        with lock, open(out, "a") as f:
            f.write(json.dumps(r) + "\n")

    try:
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, todo))
    finally:
        for d in roots:
            shutil.rmtree(d, ignore_errors=True)


main()
