"""M06: sums, means, diagonals, traces and NaN masks equal those of the dense matrix."""

import numpy as np

from ..common import check, pick_dtype, signature, tolfac
from ..gen import Gen, MATRIX_KINDS, SQUARE_ONLY

ID = "M06"
REPS = {"quick": 700, "thorough": 5500}
BUDGET = {"quick": 90, "thorough": 600}
MIN_EVENTS = {t: {"oracle_evaluations": 8000} for t in REPS}
RULE = (
    "one case = one freshly generated operand and one reduction: sum or mean over everything or over one axis (matrix or"
    " batch, counted from either end), diagonal (diag, diag_extract, .diagonal(), Diagonal(matrix)), trace, or NaN mask. Distinct and"
    " non-trivial: distinct (reduction, axis, operand type incl. nested factors, batch and size pattern), non-zero result"
)
ASSUMPTIONS = [
    "NumPy reductions of the dense matrix denoted by the raw arrays are the reference",
    "rounding of a correct implementation stays below 4e4 * eps * (the same reduction of absolute terms)",
]
NANABLE = {"dense", "const", "lt", "ut"}


def strata(tier):
    out = []
    for k in MATRIX_KINDS:
        out += [f"sum:{k}"] * 4 + [f"mean:{k}", f"diag:{k}", f"diag:{k}", f"trace:{k}", f"isnan:{k}"]
    return out


def run(ctx, rng, name, rep):
    B = ctx.B
    op, k = name.split(":")
    dt = pick_dtype(rng)
    g = Gen(rng, ctx.m, dt)
    batch = g.batch()
    n = g.dim()
    m = n if k in SQUARE_ONLY or g.chance(0.35) else g.dim()
    if op == "isnan" and k in NANABLE and dt != "i8" and g.chance(0.7):
        raw0 = g.raw

        def raw(shape, prof="any"):
            a = np.array(raw0(shape, prof))
            return np.where(rng.random(np.shape(a)) < 0.3, np.nan, a).astype(a.dtype)

        g.raw = raw
        a = g.matrix(k, m, n, batch, "any", 1)
        g.raw = raw0
    else:
        a = g.matrix(k, m, n, batch)
    t = 2 * tolfac(dt)
    v, mag = a.val, a.mag
    desc = f"{op}({a.desc}) dtype={dt}"
    if op in ("sum", "mean"):
        r = v.ndim
        opts = [None, -1, -2, r - 1, r - 2] + list(range(-r, -2)) * 2 + list(range(0, r - 2))
        ax = opts[rng.integers(len(opts))]
        desc += f" axis={ax}"
        kw = {} if ax is None and g.chance(0.5) else {"axis": ax if ax is None or g.chance(0.8) else np.int64(ax)}
        f = getattr(B, op)
        nf = getattr(np, op)
        # The number of terms can be large for sums over everything.
        res = ctx.call(op, lambda: f(a.obj, **kw), desc, (k,))
        what = "all" if ax is None else ("batch" if ax % r < r - 2 else f"{ax % r - r}")
        check(ctx, f"{op}/{what}", res, nf(v, axis=ax), t * nf(mag, axis=ax), desc, (k,), a)
    elif op == "diag":
        how = g.pick(["diag", "diag_extract", "method", "construct"])
        f = {
            "diag": lambda: B.diag(a.obj),
            "diag_extract": lambda: B.diag_extract(a.obj),
            "construct": lambda: ctx.m.Diagonal(a.obj).diag,
        }.get(how, lambda: a.obj.diagonal())
        dd = lambda x: np.diagonal(x, axis1=-2, axis2=-1)  # noqa
        res = ctx.call(op, f, desc, (k,))
        check(ctx, op, res, dd(v), t * dd(mag), desc + f" by {how}", (k,), a)
    elif op == "trace":
        res = ctx.call(op, lambda: B.trace(a.obj), desc, (k,))
        check(
            ctx, op, res, np.trace(v, axis1=-2, axis2=-1), t * np.trace(mag, axis1=-2, axis2=-1), desc, (k,), a
        )
    else:
        res = ctx.call(op, lambda: B.isnan(a.obj), desc, (k,))
        d = ctx.numeric(op, res, desc)
        if isinstance(d, np.ndarray):
            ctx.event("oracle_evaluations")
            ref = np.isnan(v)
            if d.shape != ref.shape or d.dtype != bool or not np.array_equal(d, ref):
                ctx.fail(f"isnan({k})", f"{desc}: NaN mask is wrong")
            elif ref.any():
                ctx.event("nontrivial", signature(op, a))
