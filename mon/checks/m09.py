"""M09: shapes, ranks, data types and printed forms tell the truth, without densifying."""

import importlib
import re

import numpy as np

from ..common import skeleton
from ..core import SKIP
from ..gen import Gen, MATRIX_KINDS, SQUARE_ONLY
from ..ops import as_item, instance, is_tb, pool

ID = "M09"
REPS = {"quick": 2200, "thorough": 40000}
BUDGET = {"quick": 100, "thorough": 700}
MIN_EVENTS = {t: {"objects_inspected": 20000, "broadcast_queries": 2000, "shape_helpers": 1000, "result_wrapping": 4000} for t in REPS}
RULE = (
    "one case = a random program of up to 6 operations on a pool of operands; every operand and every result is asked for"
    " its shape (whole, by dimension, batch and matrix part), rank, data type, abstractness and printed forms before"
    " anything is made dense, and pairs are asked for their broadcast shapes. Distinct: distinct (type, nested types, batch"
    " and size pattern)"
)
ASSUMPTIONS = ["shapes are those of the matrix denoted by the raw arrays, computed with NumPy"]
PRINT = {
    "Zero": "zero matrix", "Dense": "dense matrix", "Diagonal": "diagonal matrix", "Constant": "constant matrix",
    "LowerTriangular": "lower-triangular matrix", "UpperTriangular": "upper-triangular matrix", "LowRank": "low-rank matrix",
    "Woodbury": "Woodbury matrix", "Kronecker": "Kronecker product", "TiledBlocks": "tile of blocks",
}


def strata(tier):
    return MATRIX_KINDS + ["mixed"] * 4 + ["shapes"]


def ints(x):
    return tuple(int(k) for k in (x if isinstance(x, (tuple, list)) or hasattr(x, "__len__") else (x,)))


def bracket(t):
    return "(" + ", ".join(str(k) for k in t) + ("," if len(t) == 1 else "") + ")"


def supported(f):
    """Every type must answer: the lack of a method is not excused."""
    try:
        return f()
    except LookupError as e:
        raise RuntimeError(f"not supported: {str(e)[:100]}") from e


def inspect(ctx, x, dtype, rng):
    """Ask the object `x.obj` about itself and compare with the matrix it denotes."""
    B, m = ctx.B, ctx.m
    o, want = x.obj, x.val.shape
    if not isinstance(o, m.AbstractMatrix):
        return
    t = type(o).__name__
    desc = x.desc
    caches = [k for k in ("dense", "cholesky", "schur") if o.__dict__.get(k) is not None]

    def ask(key, f, ref):
        got = ctx.call(key, f, desc, (x.kind,))
        if got is SKIP:
            return
        if got != ref:
            ctx.fail(f"{key}({t})", f"{desc}: {key} is {got!r}, expected {ref!r}")

    ask("B.shape", lambda: ints(B.shape(o)), want)
    ask(".shape", lambda: ints(o.shape), want)
    ask("B.shape_batch", lambda: ints(B.shape_batch(o)), want[:-2])
    ask("B.shape_matrix", lambda: ints(B.shape_matrix(o)), want[-2:])
    ask("B.rank", lambda: int(B.rank(o)), len(want))
    i = int(rng.integers(-len(want), len(want)))
    ask("B.shape(i)", lambda: int(B.shape(o, i)), want[i])
    j = int(rng.integers(-len(want), len(want)))
    ask("B.shape(i, j)", lambda: ints(B.shape(o, i, j)), (want[i], want[j]))
    k = int(rng.integers(-2, 2))
    ask("B.shape_matrix(i)", lambda: int(B.shape_matrix(o, k)), want[-2:][k])
    if want[:-2]:
        b = want[:-2]
        k2 = int(rng.integers(-len(b), len(b)))
        ask("B.shape_batch(i)", lambda: int(B.shape_batch(o, k2)), b[k2])
    if dtype is not None:
        ask("B.dtype", lambda: np.dtype(B.dtype(o)), np.dtype(dtype))
        ask(".dtype", lambda: np.dtype(o.dtype), np.dtype(dtype))
    ask("B.isabstract", lambda: supported(lambda: bool(B.isabstract(o))), False)
    if rng.random() < 0.3:
        head = f"<{PRINT[t]}: batch={bracket(want[:-2])}, shape={bracket(want[-2:])}"
        tail = [f"axis={o.axis}"] if t == "TiledBlocks" else []
        if dtype is not None:
            tail.append(f"dtype={np.dtype(dtype).name}")
        for key, f in (("str", str), ("repr", repr)):
            s = ctx.call(key, lambda: f(o), desc, (x.kind,))
            if s is SKIP:
                continue
            first = s.split("\n")[0]
            if not first.startswith(head):
                ctx.fail(f"{key}({t})", f"{desc}: prints {first!r}, expected {head!r}...")
            if dtype is not None:
                first = re.sub(r"dtype=(float|int)>?$", lambda q: q.group(0).replace(q.group(1), np.dtype(q.group(1)).name), first)
                first = re.sub(r"dtype=(float|int),", lambda q: f"dtype={np.dtype(q.group(1)).name},", first)
            for w in tail:
                if w not in first:
                    ctx.fail(f"{key}({t})", f"{desc}: prints {first!r}, which lacks {w!r}")
            if s.count("<") < s.count(">") or not s.endswith(">"):
                ctx.fail(f"{key}({t})", f"{desc}: unbalanced brackets in {s!r}")
            if key == "repr":
                ctx.event("printed_forms")
    now = [k for k in ("dense", "cholesky", "schur") if o.__dict__.get(k) is not None]
    if now != caches:
        ctx.fail(f"densified({t})", f"{desc}: asking about the matrix filled the caches {set(now) - set(caches)}")
    ctx.event("objects_inspected", f"{t}|{skeleton(desc)}")


def broadcast_queries(ctx, g, items):
    B = ctx.B
    k = int(g.rng.integers(1, 6))
    xs = [g.pick(items) for _ in range(k)]
    for key, f, sel in (
        ("shape_broadcast", B.shape_broadcast, lambda s: s),
        ("shape_batch_broadcast", B.shape_batch_broadcast, lambda s: s[:-2]),
        ("shape_matrix_broadcast", B.shape_matrix_broadcast, lambda s: s[-2:]),
    ):
        shapes = [sel(x.val.shape) for x in xs]
        desc = f"{key}({', '.join(x.desc[:200] for x in xs)})"
        try:
            want = np.broadcast_shapes(*shapes)
        except ValueError:
            # Incompatible: this must be said.
            try:
                got = f(*[x.obj for x in xs])
            except RuntimeError:
                ctx.event("incompatible_shapes_reported")
                continue
            except Exception as e:
                ctx.fail(f"{key}:{type(e).__name__}", f"{desc}: {e}")
                continue
            ctx.fail(key, f"{desc}: gives {got!r} for incompatible shapes")
            continue
        got = ctx.call(key, lambda: ints(f(*[x.obj for x in xs])), desc, ("query",))
        if got is SKIP:
            continue
        ctx.event("broadcast_queries")
        if got != want:
            ctx.fail(key, f"{desc}: {got!r}, expected {want!r}")


def shape_helpers(ctx, rng):
    """The helpers in `matrix.shape` on plain tuples of sizes."""
    sh = importlib.import_module("matrix.shape")
    base = [int(rng.integers(1, 5)) for _ in range(4)]
    shapes = []
    for _ in range(int(rng.integers(1, 6))):
        k = int(rng.integers(0, 5))
        s = [1 if rng.random() < 0.35 else d for d in base[4 - k :]]
        if k and rng.random() < 0.12:
            s[rng.integers(k)] = int(rng.integers(1, 5))
        shapes.append(tuple(s))
    if rng.random() < 0.4:
        # Of equal length.
        k = len(shapes[0])
        shapes = [s for s in shapes if len(s) == k]
    try:
        want = np.broadcast_shapes(*shapes)
    except ValueError:
        want = None

    def outcome(f):
        try:
            got = f()
        except Exception as e:
            return type(e).__name__
        return got if isinstance(got, bool) or got is None else ints(got)

    cases = [("expand_and_broadcast", lambda: sh.expand_and_broadcast(*shapes), want if want is not None else "RuntimeError")]
    if len({len(s) for s in shapes}) == 1 or len(shapes) == 2:
        same = len({len(s) for s in shapes}) == 1
        cases.append(("broadcast", lambda: sh.broadcast(*shapes), want if same and want is not None else "RuntimeError"))
    if len(shapes) == 2:
        cases.append(("compatible", lambda: sh.compatible(*shapes), want is not None))
        cases.append(("assert_compatible", lambda: sh.assert_compatible(*shapes), None if want is not None else "AssertionError"))
    x = np.zeros(shapes[0])
    cases.append(("assert_vector", lambda: sh.assert_vector(x, "no"), None if x.ndim >= 1 else "AssertionError"))
    cases.append(("assert_matrix", lambda: sh.assert_matrix(x, "no"), None if x.ndim >= 2 else "AssertionError"))
    square = x.ndim >= 2 and x.shape[-1] == x.shape[-2]
    cases.append(("assert_square", lambda: sh.assert_square(x, "no"), None if square else "AssertionError"))
    for key, f, ref in cases:
        got = outcome(f)
        ctx.event("shape_helpers", f"{key}|{len(shapes)}|{sorted(map(len, shapes))}|{want is None}")
        if got != ref:
            ctx.fail(f"matrix.shape.{key}", f"{key} of {shapes}: {got!r}, expected {ref!r}")


def run(ctx, rng, name, rep):
    B = ctx.B
    if name == "shapes":
        return shape_helpers(ctx, rng)
    dt = str(rng.choice(["f8", "f4", "i8"], p=[0.6, 0.2, 0.2]))
    npd = {"f8": "float64", "f4": "float32", "i8": "int64"}[dt]
    g = Gen(rng, ctx.m, dt, styles=["int"])
    if name != "mixed":
        n = g.dim()
        x = g.matrix(name, n, n if name in SQUARE_ONLY or g.chance(0.3) else g.dim(), g.batch())
        inspect(ctx, x, npd, rng)
        ctx.sample(x.desc)
        return
    items = pool(g, 5)
    for x in items:
        inspect(ctx, x, npd, rng)
    broadcast_queries(ctx, g, items)
    for _ in range(int(rng.integers(2, 7))):
        inst = instance(B, g, items)
        if inst is None:
            break
        if np.size(inst.value()) == 0 or np.size(inst.magnitude()) > 2000 or np.max(inst.magnitude()) > 2**20:
            continue
        tb = ("tb",) if any(is_tb(x) for x in inst.args) else ()
        res = ctx.call(inst.name, inst.call, inst.desc[:600], inst.kinds + tb, nkron=99)
        if res is SKIP:
            continue
        is_matrix = isinstance(res, ctx.m.AbstractMatrix)
        if not all(isinstance(x.obj, np.ndarray) for x in inst.args) and np.ndim(inst.value()) >= 2:
            # Matrices stay matrices; what is taken out of a matrix is an array.
            if inst.name not in ("dense", "sum", "mean") and is_matrix != inst.matrix:
                what = "a matrix object" if inst.matrix else "an array"
                ctx.fail(
                    f"{inst.name}({','.join(inst.kinds)}):WRAPPED", f"{inst.desc[:600]}: gives {type(res).__name__}, expected {what}"
                )
                continue
            ctx.event("result_wrapping", f"{inst.name}|{is_matrix}")
        if not is_matrix:
            continue
        if not (inst.matrix and np.ndim(inst.value()) >= 2):
            continue
        y = as_item(res, inst, B, ctx.m)
        y.desc = f"{inst.desc[:300]} -> {y.desc}"
        scal = inst.name.startswith("scalar") or inst.name in ("div", "mean", "cast")
        inspect(ctx, y, None if scal else npd, rng)
        if scal:
            # The data type after arithmetic with a Python scalar is not claimed here.
            continue
        y.desc = f"<{inst.name}:{type(res).__name__}{y.val.shape}>" + (" with TiledBlocks" if "TiledBlocks" in inst.desc else "")
        items.append(y)
        broadcast_queries(ctx, g, items)
