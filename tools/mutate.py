"""Mutation campaign (development helper; no check uses it): small changes of matrix/ are made
one at a time in scratch copies and the checks run on them, to find what the monitors miss.

  mutate.py list                       number of mutants per file
  mutate.py run OUT.jsonl N SEED PROCS  try N random mutants
"""

import ast
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time

REPO = "/repo"
FILES = sorted(
    subprocess.run("git ls-files matrix", cwd=REPO, shell=True, capture_output=True, text=True).stdout.split()
)
SKIP = {"matrix/__init__.py", "matrix/ops/__init__.py", "matrix/_version.py"}
SWAP = {
    "left": "right", "right": "left", "rows": "cols", "cols": "rows", "diag": "lr", "lr": "diag", "middle": "left",
    "LowerTriangular": "UpperTriangular", "UpperTriangular": "LowerTriangular", "any": "all", "all": "any",
    "a": "b", "b": "a", "tr_a": "tr_b", "tr_b": "tr_a", "add": "subtract", "subtract": "add", "inv": "pd_inv",
    "schur": "pd_schur", "pd_schur": "schur", "pd_inv": "inv", "argsort": "negative", "shape_batch": "shape_matrix",
    "l_a_p": "l_b_p", "r_a_p": "l_a_p", "shape_broadcast": "shape_matrix_broadcast", "stack": "concat",
    "const": "dtype", "true": "false", "maximum": "minimum", "min": "max", "max": "min", "minimum": "maximum",
    "ones": "zeros", "zeros": "ones",
}
CMP = {
    ast.Eq: ["!=", "<=", ">="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"],
    ast.GtE: [">", "<="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"],
}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*"}


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, f"{path}:{n.lineno} {what}: {raw[a:b].decode()[:60]!r} -> {new[:60]!r}"))

    def between(l, r, new, what):
        a, b = span(l)[1], span(r)[0]
        out.append((a, b, f" {new} ", f"{path}:{l.lineno} {what}: {raw[span(l)[0]:span(r)[1]].decode()[:70]!r} with {new}"))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in ("__str__", "__repr__"):
                return
            for d in n.decorator_list:
                pass
            for i, s in enumerate(n.body):
                visit(s, n)
            return
        if isinstance(n, ast.Assert):
            put(n, "pass", "drop")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and fn is not None:
            put(n, "pass", "drop")
        if isinstance(n, ast.Raise):
            put(n, "pass", "drop")
            return
        if isinstance(n, ast.If):
            put(n.test, "True", "always")
            put(n.test, "False", "never")
        if isinstance(n, ast.IfExp):
            put(n, text(n.body), "body")
            put(n, text(n.orelse), "else")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                between(n.left, n.comparators[0], new, "compare")
        if isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                between(x, y, "or" if isinstance(n.op, ast.And) else "and", "bool")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and fn is not None:
            between(n.left, n.right, BIN[type(n.op)], "binop")
            put(n, text(n.left), "left only")
            put(n, text(n.right), "right only")
        if isinstance(n, ast.UnaryOp):
            put(n, text(n.operand), "unary")
        if isinstance(n, ast.Constant) and fn is not None and not isinstance(n.value, str):
            v = n.value
            if v is True or v is False:
                put(n, str(not v), "const")
            elif isinstance(v, int):
                for w in (v + 1, v - 1):
                    put(n, str(w), "const")
            elif isinstance(v, float):
                put(n, repr(v * 1e4), "const")
                put(n, repr(v * 1e-8), "const")
        if isinstance(n, ast.Attribute) and n.attr in SWAP and fn is not None:
            put(n, text(n.value) + "." + SWAP[n.attr], "attr")
        if isinstance(n, ast.Name) and n.id in SWAP and fn is not None and isinstance(n.ctx, ast.Load):
            put(n, SWAP[n.id], "name")
        if isinstance(n, ast.Call) and fn is not None:
            if "warn_upmodule" in text(n.func):
                return
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                put(n, text(n.args[0]), "unwrap")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    a, b = span(n.args[i])[0], span(n.args[i + 1])[1]
                    new = text(n.args[i + 1]) + ", " + text(n.args[i])
                    out.append((a, b, new, f"{path}:{n.lineno} swap args: {raw[a:b].decode()[:60]!r}"))
                put(n, text(n.args[0]), "first arg only")
                put(n, text(n.args[-1]), "last arg only")
                # Drop the last positional argument.
                a, b = span(n.args[-2])[1], span(n.args[-1])[1]
                out.append((a, b, "", f"{path}:{n.lineno} drop last arg: {text(n)[:80]!r}"))
            for k in n.keywords:
                if k.arg is None:
                    continue
                a, b = span(k)
                # Remove with a preceding comma.
                pre = raw[:a].rstrip()
                if pre.endswith(b","):
                    out.append((len(pre) - 1, b, "", f"{path}:{n.lineno} drop keyword {k.arg}: {text(n)[:80]!r}"))
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    for s in tree.body:
        if isinstance(s, ast.ClassDef):
            for f in s.body:
                if isinstance(f, ast.FunctionDef):
                    visit(f, None)
        elif isinstance(s, ast.FunctionDef):
            visit(s, None)
    good, seen = [], set()
    for a, b, new, what in out:
        t = raw[:a] + new.encode() + raw[b:]
        if t in seen or t == raw:
            continue
        seen.add(t)
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        good.append((path, a, b, new, what))
    return good


def everything():
    out = []
    for f in FILES:
        if f.endswith(".py") and f not in SKIP:
            out += mutants(f)
    return out


FIRST = {
    "add": "M01 M23 M14 M17 M18 M19 M20", "multiply": "M01 M23 M14 M17 M18 M15", "subtract": "M01", "divide": "M01", "negative": "M01", "abs": "M01",
    "power": "M01 M17", "sqrt": "M01", "matmul": "M02 M14 M17 M18 M15", "matmul_diag": "M02 M18", "kron": "M02 M08", "transpose": "M02", "inv": "M03", "pd_inv": "M03",
    "solve": "M03 M18", "triangular_solve": "M03", "cholesky_solve": "M03", "schur": "M03 M13 M12", "pd_schur": "M03 M13 M12", "cholesky": "M04 M17 M21", "root": "M04",
    "logdet": "M05", "iqf": "M05", "iqf_diag": "M05", "ratio": "M05", "trace": "M05", "sum": "M06", "mean": "M06", "diag": "M06", "diag_extract": "M06",
    "isnan": "M06", "take": "M07 M09", "submatrix": "M07 M09", "reshape": "M07", "squeeze": "M07", "tile": "M07", "concat": "M07", "broadcast_to": "M07",
    "broadcast_batch_to": "M07", "to_numpy": "M07", "block": "M08", "block_diag": "M08", "fill_diag": "M08", "tiledblocks": "M08", "dense": "M08 M01",
    "constant": "M08 M18", "shape": "M09 M18", "dtype": "M17", "cast": "M17", "sample": "M21", "lowrank": "M10 M18", "woodbury": "M10 M18", "kronecker": "M10",
    "align": "M01 M14 M19 M20", "promote": "M01 M17", "util": "M07",
}
ALL = "M23 M10 M09 M17 M14 M18 M01 M02 M08 M07 M06 M11 M12 M15 M03 M04 M05 M21 M13 M19 M22 M16 M20".split()


def one(args):
    i, (path, a, b, new, what), budget = args
    d = f"/tmp/mut_{os.getpid()}"
    t0 = time.time()
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(f"cp -a {REPO}/matrix {d}/matrix", shell=True, check=True)
    raw = open(os.path.join(REPO, path), "rb").read()
    open(f"{d}/{path}", "wb").write(raw[:a] + new.encode() + raw[b:])
    try:
        stem = os.path.basename(path)[:-3]
        order = FIRST.get(stem, "").split()
        order += [c for c in ALL if c not in order]
        env = dict(
            os.environ, MON_REPO=d, VERIF_SEED=str(1 + i % 7), MON_WORKERS="1", MON_BUDGET=str(budget), MON_OUT=f"/tmp/mut_out_{os.getpid()}"
        )
        log = {}
        # A quick look at whether it loads at all.
        r = subprocess.run(["/opt/venv/bin/python", "-c", f"import sys; sys.path.insert(0, {d!r}); import matrix"], capture_output=True, text=True)
        if r.returncode:
            return dict(i=i, what=what, by="import", s=round(time.time() - t0, 1))
        for c in order:
            try:
                r = subprocess.run(["./check.sh", c, "quick"], cwd="/verif", capture_output=True, text=True, env=env, timeout=budget + 200)
            except subprocess.TimeoutExpired:
                log[c] = "timeout"
                continue
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return dict(i=i, what=what, by=c, errors=log, s=round(time.time() - t0, 1))
            if r.returncode not in (0, 1) and "harness error" in r.stdout or r.returncode not in (0, 1, 2):
                log[c] = (r.stdout + r.stderr)[-600:]
        return dict(i=i, what=what, by=None, errors=log, edit=[path, a, b, new], s=round(time.time() - t0, 1))
    finally:
        open(f"{d}/{path}", "wb").write(raw)


def main():
    ms = everything()
    if sys.argv[1] == "list":
        c = {}
        for m in ms:
            c[m[0]] = c.get(m[0], 0) + 1
        print(len(ms), c)
        return
    out, n, seed, procs = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    budget = float(os.environ.get("BUDGET", "25"))
    random.Random(seed).shuffle(ms)
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["what"] for l in open(out)}
    todo = [(i, m, budget) for i, m in enumerate(ms[:n]) if m[4] not in done]
    with mp.Pool(procs) as pool, open(out, "a") as f:
        for r in pool.imap_unordered(one, todo):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
