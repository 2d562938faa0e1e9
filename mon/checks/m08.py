"""M08: block matrices, block-diagonal matrices, tiled blocks and filled diagonals."""

import numpy as np

from ..common import check, pick_dtype, signature, tolfac
from ..core import SKIP
from ..gen import DT, Gen, MATRIX_KINDS, SQUARE_ONLY

ID = "M08"
REPS = {"quick": 1600, "thorough": 9000}
BUDGET = {"quick": 90, "thorough": 600}
MIN_EVENTS = {t: {"oracle_evaluations": 4000} for t in REPS}
RULE = (
    "one case = one assembly: a grid of blocks of random types and broadcastable batch shapes (biased to grids whose"
    " off-diagonal blocks are zero), a block-diagonal matrix, tiled blocks through each constructor form (and their"
    " block-diagonal version), a filled diagonal, or a Zero/Constant with explicit batch shape. Distinct and"
    " non-trivial: distinct (constructor, block types, batch and size pattern) with a non-zero result"
)
ASSUMPTIONS = [
    "NumPy concatenation of the dense blocks is the reference",
    "the blocks of one row have equally many rows, those of one column equally many columns (documented)",
]


def strata(tier):
    return (
        ["block:any"] * 3 + ["block:diagonal"] * 3 + ["block:zero", "block:mixed"] * 2 + ["block_diag:any"] * 3
        + ["block_diag:diag", "block_diag:zero", "block_diag:diagzero", "block_diag:np", "block_diag:tb"]
        + ["tiled:list", "tiled:single", "tiled:reps", "tiled:gen"] * 2 + ["fill_diag", "constant"]
    )


def bcat(xs, axis):
    """Concatenate over a matrix axis after broadcasting the batches."""
    batch = np.broadcast_shapes(*[x.shape[:-2] for x in xs])
    return np.concatenate([np.broadcast_to(x, batch + x.shape[-2:]) for x in xs], axis=axis)


def grid(rows, attr):
    return bcat([bcat([getattr(x, attr) for x in row], -1) for row in rows], -2)


def bdiag(xs):
    R = sum(x.shape[-2] for x in xs)
    C = sum(x.shape[-1] for x in xs)
    batch = np.broadcast_shapes(*[x.shape[:-2] for x in xs])
    out = np.zeros(batch + (R, C), np.result_type(*xs))
    i = j = 0
    for x in xs:
        out[..., i : i + x.shape[-2], j : j + x.shape[-1]] = x
        i += x.shape[-2]
        j += x.shape[-1]
    return out


def any_kind(g, m, n, extra=()):
    ks = [k for k in MATRIX_KINDS + ["np", "zero", "zero"] if m == n or k not in SQUARE_ONLY]
    ks = [k for k in ks if k != "tb"] + list(extra)
    return g.pick(ks)


def run(ctx, rng, name, rep):
    B = ctx.B
    op, _, what = name.partition(":")
    dt = pick_dtype(rng)
    g = Gen(rng, ctx.m, dt)
    batch = g.batch()
    t = tolfac(dt)
    if op == "block":
        nr = int(g.pick([1, 2, 3, 5], p=[0.25, 0.45, 0.26, 0.04]))
        nc = nr if what == "diagonal" or g.chance(0.5) else int(g.pick([1, 2, 3, 5], p=[0.33, 0.32, 0.31, 0.04]))
        hs = [g.dim(4) for _ in range(nr)]
        ws = list(hs) if what == "diagonal" and nr == nc and g.chance(0.85) else [g.dim(4) for _ in range(nc)]
        rows = []
        for i in range(nr):
            row = []
            for j in range(nc):
                m, n = hs[i], ws[j]
                if what == "zero":
                    k = "zero"
                elif what == "diagonal":
                    if i != j:
                        k = "zero"
                    else:
                        k = g.pick(["diag", "diag", "zero"]) if m == n else "zero"
                elif what == "mixed":
                    k = g.pick(["zero", "zero", "np"] + (["diag"] if m == n else []))
                else:
                    k = any_kind(g, m, n)
                row.append(g.matrix(k, m, n, batch))
            rows.append(row)
        if what == "diagonal" and g.chance(0.3):
            # One block that spoils the structure.
            i, j = int(rng.integers(nr)), int(rng.integers(nc))
            rows[i][j] = g.matrix(any_kind(g, hs[i], ws[j]), hs[i], ws[j], batch)
        xs = [x for row in rows for x in row]
        desc = f"block({[[x.desc for x in row] for row in rows]}) dtype={dt}"
        arg = [[x.obj for x in row] for row in rows]
        if g.chance(0.3):
            arg = [tuple(r) for r in arg] if False else arg
        res = ctx.call(op, lambda: B.block(*arg), desc, tuple(x.kind for x in xs))
        check(ctx, f"block/{what}", res, grid(rows, "val"), t * grid(rows, "mag"), desc, (what,), *xs)
    elif op == "block_diag":
        if what == "tb":
            n = g.dim(3)
            parts = []
            for _ in range(int(g.pick([1, 2, 3]))):
                k = any_kind(g, n, n)
                parts.append((g.matrix(k, n, n, batch), int(rng.integers(1, 4))))
            desc = f"block_diag(TiledBlocks[{', '.join(f'{x.desc}*{r}' for x, r in parts)}]) dtype={dt}"
            tb = ctx.m.TiledBlocks(*((x.obj, r) for x, r in parts), axis=g.pick([-1, -2]))
            xs = [x for x, r in parts for _ in range(r)]
            res = ctx.call(op, lambda: B.block_diag(tb), desc, tuple(x.kind for x in xs))
        else:
            xs = []
            for _ in range(int(g.pick([1, 2, 3, 4, 6], p=[0.25, 0.25, 0.25, 0.2, 0.05]))):
                m = g.dim(4)
                n = m if what in ("diag",) or g.chance(0.5) else g.dim(4)
                k = {
                    "any": lambda: any_kind(g, m, n),
                    "diag": lambda: "diag",
                    "zero": lambda: "zero",
                    "diagzero": lambda: g.pick(["diag", "zero"]) if m == n else "zero",
                    "np": lambda: "np",
                }[what]()
                xs.append(g.matrix(k, m, n, batch))
            desc = f"block_diag({[x.desc for x in xs]}) dtype={dt}"
            res = ctx.call(op, lambda: B.block_diag(*[x.obj for x in xs]), desc, tuple(x.kind for x in xs))
        check(ctx, f"block_diag/{what}", res, bdiag([x.val for x in xs]), t * bdiag([x.mag for x in xs]), desc, (what,), *xs)
    elif op == "tiled" and what == "gen":
        # Along any axis, also of the batch, counted from either end.
        x = g.matrix("tb", g.dim(), g.dim(), batch)
        desc = f"{x.desc} dtype={dt}"
        if tuple(int(d) for d in B.shape(x.obj)) != x.val.shape:
            ctx.fail("tiled:shape", f"{desc}: shape {B.shape(x.obj)}, expected {x.val.shape}")
        else:
            check(ctx, f"tiled/{what}", x.obj, x.val, t * x.mag, desc, (what,), x)
    elif op == "tiled":
        axis = int(g.pick([-2, -1]))
        g0 = int(g.pick([1, 2, 3, 5], p=[0.32, 0.32, 0.31, 0.05]))
        m, n = g.dim(), g.dim()
        xs, reps = [], []
        for i in range(1 if what == "single" else g0):
            mm_, nn_ = (g.dim(), n) if axis == -2 else (m, g.dim())
            k = any_kind(g, mm_, nn_)
            xs.append(g.matrix(k, mm_, nn_, batch))
            reps.append(1 if what == "list" else int(rng.integers(1, 4) if g.chance(0.95) else rng.integers(4, 9)))
        kw = {} if axis == -2 and g.chance(0.5) else {"axis": axis}
        if what == "list":
            f = lambda: ctx.m.TiledBlocks(*[x.obj for x in xs], **kw)  # noqa
        elif what == "single":
            f = lambda: ctx.m.TiledBlocks(xs[0].obj, reps[0], **kw)  # noqa
        else:
            f = lambda: ctx.m.TiledBlocks(*[(x.obj, r) for x, r in zip(xs, reps)], **kw)  # noqa
        desc = f"TiledBlocks({what}, {[(x.desc, r) for x, r in zip(xs, reps)]}, axis={axis}) dtype={dt}"
        res = ctx.call(op, f, desc, ("tb",))
        ref = bcat([x.val for x, r in zip(xs, reps) for _ in range(r)], axis)
        mag = bcat([x.mag for x, r in zip(xs, reps) for _ in range(r)], axis)
        if check(ctx, f"tiled/{what}", res, ref, t * mag, desc, (what,), *xs) and res is not SKIP:
            # The declared shape agrees as well, also for an object that was never densified.
            fresh = f()
            if tuple(int(d) for d in B.shape(fresh)) != ref.shape:
                ctx.fail("tiled:shape", f"{desc}: shape {B.shape(fresh)}")
    elif op == "fill_diag":
        n = g.dim()
        b = batch if g.chance(0.6) else ()
        a = g.raw(b)
        s = a if b or g.chance(0.3) else (float(a) if dt != "i8" else int(a))
        desc = f"fill_diag({'array' + str(b)}, {n}) dtype={dt}"
        ref = np.asarray(a, float)[..., None, None] * np.eye(n)
        res = ctx.call(op, lambda: B.fill_diag(s, n), desc)
        if ctx.close("fill_diag", res, ref, 0 * ref, desc):
            ctx.event("nontrivial", f"fill_diag|{len(b)}|{n}|{type(s).__name__}")
    else:
        # Constants and zeros with an explicit batch shape.
        m, n = g.dim(), g.dim()
        cb = g.sub_batch(batch, 0.3)
        c = g.raw(cb)
        desc = f"Constant(array{cb}, batch={batch}, {m}, {n})"
        res = ctx.call(op, lambda: ctx.m.Constant(c, *batch, m, n), desc)
        shape = np.broadcast_shapes(cb, batch) + (m, n)
        ref = np.broadcast_to(np.asarray(c, float)[..., None, None], shape)
        if ctx.close("constant", res, ref, 0 * ref, desc):
            ctx.event("nontrivial", f"constant|{cb}|{batch}")
        res = ctx.call(op, lambda: ctx.m.Zero(DT[dt], *batch, m, n), desc)
        ref = np.zeros(batch + (m, n))
        ctx.close("zero", res, ref, 0 * ref, desc)
