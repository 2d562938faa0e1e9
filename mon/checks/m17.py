"""M17: data types are promoted as NumPy promotes them, casts reach every part, nothing is lost."""

import operator

import numpy as np

from ..common import EPS, signature, skeleton
from ..core import SKIP
from ..gen import DT, Gen, MATRIX_KINDS, SQUARE_ONLY, Operand
from ..genpd import GenPD
from ..ops import binary, is_tb, unary
from ..pdops import pd_instance, pd_pool

ID = "M17"
REPS = {"quick": 1200, "thorough": 8000}
BUDGET = {"quick": 90, "thorough": 700}
MIN_EVENTS = {t: {"dtypes_checked": 20000, "exact_big_integers": 1000} for t in REPS}
RULE = (
    "one case = one operation on operands of equal or mixed data types, with a scalar, a cast to another type, or on 64-bit"
    " integers beyond 2**53; the monitor reads the data type the result claims and that of its dense version, and compares"
    " big integers exactly. Distinct: distinct (operation, operand types and data types, batch and size pattern)"
)
ASSUMPTIONS = [
    "NumPy's promotion of the operand data types is the reference",
    "zero matrices do not take part in promotion (0 * x is the zero it was given), so operands here have no zero parts",
]
KINDS = [k for k in MATRIX_KINDS if k != "zero"]


def strata(tier):
    out = ["same", "same", "mixed", "mixed", "scalar", "cast", "pd", "bigint", "bigint"]
    return [f"{o}:{k}" for o in out for k in KINDS]


def dtypes(ctx, key, res, want, desc, kinds, atleast=False):
    B, m = ctx.B, ctx.m
    if res is SKIP:
        return
    d = ctx.numeric(key, res, desc)
    if d is SKIP:
        return
    claimed = np.dtype(B.dtype(res)) if isinstance(res, m.AbstractMatrix) else d.dtype
    ctx.event("dtypes_checked", f"{key}|{','.join(kinds)}|{d.dtype}|{skeleton(desc)[:80]}")
    if claimed != d.dtype:
        ctx.fail(f"{key}:CLAIM", f"{desc}: {type(res).__name__} claims {claimed} but its dense version is {d.dtype}")
    ok = np.can_cast(want, d.dtype, "safe") if atleast else d.dtype == want
    if not ok:
        ctx.fail(f"{key}:DTYPE", f"{desc}: {type(res).__name__} is {d.dtype}, expected {'at least ' if atleast else ''}{want}")


def fresh(rng, ctx, dt, op):
    g = Gen(rng, ctx.m, dt)
    g.no_zero = True
    if op != "mixed":
        return g
    raw = g.raw

    def nonzero(shape, prof="any"):
        # No accidental zeros: a matrix found to be zero becomes a zero matrix.
        if dt == "i8":
            a = rng.integers(1, 2**20, size=shape) * rng.choice([-1, 1], size=shape)
            return np.asarray(a, dtype=np.int64)
        return g.layout(rng.standard_normal(shape)) if prof == "any" else raw(shape, prof)

    g.raw = nonzero
    return g


def run(ctx, rng, name, rep):
    B = ctx.B
    op, kind = name.split(":")
    if op == "pd":
        dt = str(rng.choice(["f8", "f4"]))
        B.epsilon = 0
        g = GenPD(rng, ctx.m, dt)
        pds, outs = pd_pool(g)
        outs = [x for x in outs if x.kind != "zero" and "Zero" not in x.desc]
        if kind in ("const", "lr"):
            # Positive semi-definite matrices.
            x = g.psd_matrix(kind, int(rng.integers(1, 6)), g.batch(2))
            if "Zero" not in x.desc:
                for f in ("cholesky", "root", "sample", "trace", "diag"):
                    res = ctx.call(f, lambda: getattr(B, f)(x.obj), f"{f}({x.desc})", (x.kind,), nkron=99)
                    dtypes(ctx, f"psd-{f}", res, np.dtype(DT[dt]), f"{f}({x.desc})", (x.kind,))
            return
        if not outs:
            return
        for _ in range(2):
            inst = pd_instance(B, ctx.m, g, pds, outs)
            if inst is None:
                continue
            tb = ("tb",) if any(is_tb(x) for x in inst.args) else ()
            res = ctx.call(inst.name, inst.call, inst.desc, inst.kinds + tb, nkron=99)
            dtypes(ctx, f"pd-{inst.name}", res, np.dtype(DT[dt]), inst.desc, inst.kinds)
        return
    if op == "bigint":
        return bigint(ctx, rng, kind)
    da = str(rng.choice(["f8", "f4", "i8"]))
    db = da if op == "same" else str(rng.choice(["f8", "f4", "i8"]))
    g, gb = fresh(rng, ctx, da, op), fresh(rng, ctx, db, op)
    batch = g.batch(2)
    n, k = g.dim(), g.dim()
    kb = g.pick(KINDS + ["np"])
    if kind in SQUARE_ONLY or kb in SQUARE_ONLY or g.chance(0.3):
        k = n
    a = g.matrix(kind, n, k, batch)
    na, nb = np.dtype(DT[da]), np.dtype(DT[db])
    if op == "cast":
        to = np.dtype(DT[str(rng.choice(["f8", "f4", "i8"]))])
        res = ctx.call("cast", lambda: B.cast(to.type, a.obj), f"cast({to}, {a.desc})", (kind,))
        dtypes(ctx, "cast", res, to, f"cast({to}, {a.desc}) from {na}", (kind,))
        if res is not SKIP and type(res) is not type(a.obj):
            ctx.fail("cast:TYPE", f"cast({to}, {a.desc}) is a {type(res).__name__}")
        if to.kind == "f" and res is not SKIP:
            tol = (4e3 * EPS["f4"] if "f4" in (da,) or to == np.float32 else 1e4 * EPS["f8"]) * a.mag
            ctx.close("cast", res, a.val, tol, f"cast({to}, {a.desc}) from {na}")
        return
    if op == "scalar":
        c = g.pick([1, 2, -3, 2.5, -0.5, np.float64(2.5), np.float32(1.5), np.int64(3), np.array(2.5)])
        o, f = g.pick([("add", operator.add), ("sub", operator.sub), ("mul", operator.mul), ("rsub", lambda x, y: y - x),
                       ("radd", lambda x, y: y + x), ("rmul", lambda x, y: y * x), ("div", operator.truediv)])
        desc = f"{o}({a.desc}, {c!r}) {na}"
        res = ctx.call(o, lambda: f(a.obj, c), desc, (kind,))
        # At least as precise as NumPy would be, and not an integer when a fraction is involved.
        want = f(np.ones(1, na), c).dtype
        want = np.result_type(want, na)
        dtypes(ctx, f"scalar-{o}", res, want if want != np.float64 or na == np.float64 else np.dtype("f4") if na == np.float32 else want,
               desc, (kind,), atleast=True)
        return
    b = gb.matrix(kb, n, k, batch)
    for _ in range(2):
        inst = binary(B, g, a, b) if g.chance(0.65) else unary(B, g, a)
        if inst is None or inst.name.startswith("scalar") or inst.name in ("cast", "div", "mean"):
            continue
        if inst.name in ("block", "block_diag") and da != db:
            continue  # zero blocks do not take part in promotion
        tb = ("tb",) if any(is_tb(x) for x in inst.args) else ()
        res = ctx.call(inst.name, inst.call, f"{inst.desc} {na},{nb}", inst.kinds + tb, nkron=99)
        want = np.result_type(na, nb) if len(inst.args) == 2 else na
        dtypes(ctx, inst.name, res, want, f"{inst.desc} {na},{nb}", inst.kinds)
        ctx.sample(inst.desc)


def bigint(ctx, rng, kind):
    """Sums, selections and products of small with huge integers are exact."""
    B = ctx.B
    g = Gen(rng, ctx.m, "i8")
    g.no_zero = True
    g.max_nest = 0 if kind in ("lr", "wb", "kron") else 1
    big = int(g.pick([0, 28, 28, 56, 56]))

    def raw(shape, prof="any"):
        a = rng.integers(-3, 4, size=shape).astype(np.int64)
        if big and rng.random() < 0.5:
            a = a * (2**big) + rng.integers(-3, 4, size=shape)
        return np.asarray(a, dtype=np.int64)

    # References in exact integers.
    g.raw = raw
    g.wrap = lambda a: (np.asarray(a, dtype=np.int64), np.abs(np.asarray(a, dtype=np.float64)))
    batch = g.batch(2)
    n, k = g.dim(), g.dim()
    kb = g.pick(["np", "dense", "diag", "lt", "ut", "lr", "wb", "kron", "const"])
    if kind in SQUARE_ONLY or kb in SQUARE_ONLY:
        k = n
    a, b = g.matrix(kind, n, k, batch), g.matrix(kb, n, k, batch)
    for _ in range(3):
        inst = binary(B, g, a, b) if g.chance(0.6) else unary(B, g, a)
        if inst is None or inst.name.startswith("scalar") or inst.name in ("cast", "div", "mean"):
            continue
        mag = inst.magnitude()
        if np.size(mag) == 0 or np.max(mag) > 2.0**61:
            continue
        tb = ("tb",) if any(is_tb(x) for x in inst.args) else ()
        desc = f"{inst.desc} big integers"
        res = ctx.call(inst.name, inst.call, desc, inst.kinds + tb, nkron=99)
        if res is SKIP:
            continue
        d = ctx.numeric(inst.name, res, desc)
        if d is SKIP:
            continue
        ref = np.asarray(inst.value())
        if ref.dtype.kind not in "ib":
            raise TypeError(f"reference of {desc} is {ref.dtype}")
        if d.shape != ref.shape or not np.array_equal(d, ref):
            w = np.argwhere(d != ref)[:1] if d.shape == ref.shape else d.shape
            ctx.fail(f"exact:{inst.name}", f"{desc}: {type(res).__name__} {d.dtype} differs from the exact integers at {w}")
        if np.max(mag) > 2.0**53:
            ctx.event("exact_big_integers", f"big|{signature(inst.name, *inst.args)}")
