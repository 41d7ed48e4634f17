"""Mutation runs: change one place of the library, keep what its tests let pass, and see whether the checks notice.

    python tools/mutate.py OUT.jsonl [--n N] [--seed S] [--workers W] [--only SUBSTRING] [--props C01,C02]

Works on copies under /tmp/mut (removed by hand); writes one line per mutant: what was changed, killed by the tests,
caught by which check, or survived.  It is a tool for finding blind spots; no check depends on it.
"""

import argparse
import ast
import json
import os
import random
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SKIP_CALLS = {"logging", "print", "logger", "log", "warnings"}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "+", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|"}
METHODS = {"strip": ["lstrip", "rstrip", None], "lstrip": ["strip", None], "rstrip": ["strip", None], "lower": [None], "upper": [None], "startswith": ["endswith"], "endswith": ["startswith"], "find": ["rfind"], "rfind": ["find"],
           "split": ["rsplit"], "partition": ["rpartition"], "append": ["count"], "add": ["discard"], "extend": ["count"], "update": ["get"], "casefold": [None], "search": ["match"], "match": ["search"], "union": ["intersection"]}


def logs(node):
    f = node.func if isinstance(node, ast.Call) else None
    while isinstance(f, ast.Attribute):
        if f.attr in ("Logger", "logger", "debug", "info", "warning", "critical"):
            return True
        f = f.value
    return isinstance(f, ast.Name) and f.id in SKIP_CALLS


class Places(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.lines = src.splitlines(keepends=True)
        self.start = [0]
        for ln in self.lines:
            self.start.append(self.start[-1] + len(ln.encode()))
        self.b = src.encode()

    def pos(self, node):
        return self.start[node.lineno - 1] + node.col_offset, self.start[node.end_lineno - 1] + node.end_col_offset

    def seg(self, node):
        a, z = self.pos(node)
        return self.b[a:z].decode()

    def put(self, node, new, kind):
        a, z = self.pos(node)
        self.out.append((a, z, new, kind, node.lineno))

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__",):
            return
        for x in n.body:
            self.visit(x)
        for dflt in n.args.defaults:
            if isinstance(dflt, ast.Constant) and isinstance(dflt.value, bool):
                self.put(dflt, str(not dflt.value), "default")

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) or (isinstance(n.value, ast.Call) and logs(n.value)):
            return
        self.put(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.put(n, "pass", "drop assignment")
        self.visit(n.value)

    def visit_AugAssign(self, n):
        self.put(n, "pass", "drop assignment")
        self.visit(n.value)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Raise(self, n):
        self.put(n, "pass", "drop raise")

    def visit_Continue(self, n):
        self.put(n, "pass", "drop continue")

    def visit_Break(self, n):
        self.put(n, "pass", "drop break")

    def visit_Return(self, n):
        if n.value is not None:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                self.put(n.value, "None", "return None")
            self.visit(n.value)

    def visit_If(self, n):
        self.put(n.test, "(not (" + self.seg(n.test) + "))", "negate if")
        self.put(n.test, "False", "if False")
        self.put(n.test, "True", "if True")
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for v in n.values:
            rest = [self.seg(x) for x in n.values if x is not v]
            op = " and " if isinstance(n.op, ast.And) else " or "
            self.put(n, "(" + op.join(rest) + ")", "drop operand")
        if len(n.values) == 2:
            self.put(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(self.seg(x) for x in n.values) + ")", "and/or")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, "(" + self.seg(n.operand) + ")", "drop not")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.put(n, "(" + self.seg(n.left) + " " + CMP[type(n.ops[0])] + " " + self.seg(n.comparators[0]) + ")", "compare")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)) and not any(isinstance(x, (ast.JoinedStr,)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
            self.put(n, "(" + self.seg(n.left) + " " + BIN[type(n.op)] + " " + self.seg(n.right) + ")", "arithmetic")
        self.generic_visit(n)

    def visit_Call(self, n):
        if logs(n):
            return
        if isinstance(n.func, ast.Attribute) and n.func.attr in METHODS:
            for m in METHODS[n.func.attr]:
                if m is None:
                    self.put(n, self.seg(n.func.value), "drop ." + n.func.attr)
                else:
                    self.put(n, self.seg(n.func.value) + "." + m + "(" + ", ".join(self.seg(a) for a in [*n.args, *n.keywords]) + ")", "." + n.func.attr + " -> ." + m)
        if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "reversed", "set", "len", "abs") and len(n.args) == 1 and not n.keywords and n.func.id != "len":
            self.put(n, self.seg(n.args[0]), "drop " + n.func.id)
        for k in n.keywords:
            if isinstance(k.value, ast.Constant) and k.arg:
                pass
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), "constant")
        elif isinstance(v, int):
            self.put(n, str(v + 1), "constant + 1")
            if v > 0:
                self.put(n, str(v - 1), "constant - 1")
        elif isinstance(v, str) and 0 < len(v) <= 12 and "\n" not in self.seg(n)[1:-1] and not self.seg(n).startswith(("'''", '"""')):
            self.put(n, repr(v[:-1] if len(v) > 1 else v + v), "text")

    def visit_JoinedStr(self, n):
        return

    def visit_Dict(self, n):
        self.generic_visit(n)


def places(path):
    with open(path, newline="") as f:
        src = f.read()
    p = Places(src)
    p.visit(ast.parse(src))
    return src, [x for x in p.out if p.b[x[0] : x[1]].decode() != x[2]]


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, start_new_session=True, **kw)
    except subprocess.TimeoutExpired:
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=200)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--only", default="")
    ap.add_argument("--props", default="")
    o = ap.parse_args()
    files = {}
    with open(HERE + "/properties.jsonl") as f:
        for line in f:
            p = json.loads(line)
            for a in p["anchors"]["files"] if isinstance(p.get("anchors"), dict) else p["files"]:
                files.setdefault(a.split(":")[0], []).append(p["id"])
    rng = random.Random(o.seed)
    todo = []
    for f, props in sorted(files.items()):
        if o.only and o.only not in f or not os.path.isfile("/repo/" + f):
            continue
        src, ps = places("/repo/" + f)
        todo += [(f, props, x) for x in ps]
    rng.shuffle(todo)
    todo = todo[: o.n]
    print(len(todo), "mutants")
    lock = threading.Lock()

    def work(k):
        w = f"/tmp/mut/w{o.seed}-{k}"
        subprocess.check_call(f"mkdir -p {w} && rm -rf {w}/repo {w}/verif && cp -a /repo {w}/repo && git clone -q {HERE} {w}/verif && mkdir -p {w}/tmp", shell=True)
        env = dict(os.environ, PYTHONPATH=w + "/repo", TMPDIR=w + "/tmp", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        while True:
            with lock:
                if not todo:
                    return
                f, props, (a, z, new, kind, line) = todo.pop()
            path = w + "/repo/" + f
            with open("/repo/" + f, "rb") as h:
                b = h.read()
            m = b[:a] + new.encode() + b[z:]
            rec = {"file": f, "line": line, "kind": kind, "old": b[a:z].decode()[:200], "new": new[:200], "pos": [a, z]}
            try:
                ast.parse(m)
            except SyntaxError:
                continue
            with open(path, "wb") as h:
                h.write(m)
            r = sh(f"cd {w}/repo && nice {PY} -m pytest -q -x -p pytest_timeout -p no:cacheprovider --timeout=60 --ignore=tests.unit/database/test_package_table.py 2>&1 | tail -3", 200, env=env)
            if r is None or " failed" in r.stdout or "error" in r.stdout.splitlines()[-1] or " passed" not in r.stdout:
                rec["result"] = "tests"
            else:
                rec["result"] = "survived"
                for p in props:
                    if o.props and p not in o.props.split(","):
                        continue
                    r = sh(f"cd {w}/verif && nice {PY} check.py {p}", 500, env=dict(env, VF_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
                    if r is None or r.returncode != 0:
                        rec["result"] = p if r is not None and r.returncode == 1 else f"no answer {p} " + ("timeout" if r is None else r.stderr[-200:])
                        break
            with open(path, "wb") as h:
                h.write(b)
            with lock, open(o.out, "a") as h:
                h.write(json.dumps(rec) + "\n")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(o.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    sys.exit(main())
