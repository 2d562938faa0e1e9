"""M11: operations change nothing: operands, earlier results, arguments and global state."""

import operator
import warnings

import numpy as np

from ..common import skeleton
from ..core import SKIP
from ..gen import Gen, MATRIX_KINDS, Operand
from ..genpd import GenPD
from ..ops import as_item, instance, is_tb, pool
from ..pdops import pd_instance, pd_pool
from ..walk import Snapshot, arrays

ID = "M11"
REPS = {"quick": 420, "thorough": 9000}
BUDGET = {"quick": 100, "thorough": 700}
MIN_EVENTS = {t: {"snapshots_compared": 8000, "array_contents_compared": 100000, "read_only_operands": 5000} for t in REPS}
RULE = (
    "one case = a random program of up to 8 operations on a pool; before every operation the contents of all arrays and the"
    " attributes of all matrices reachable from any operand or earlier result are recorded, and compared afterwards; in half"
    " of the cases the operands' arrays are read-only memory. Distinct: distinct (operation, operand types incl. nested)"
)
ASSUMPTIONS = ["filling a cache that was empty is no change (what it holds is judged by M10)"]


def strata(tier):
    return MATRIX_KINDS + ["mixed"] * 5 + ["pd"] * 8 + ["args"] * 4


def global_state(B):
    s = np.random.get_state()
    return (
        s[0], s[1].tobytes(), s[2:], repr(np.geterr()), len(warnings.filters), repr(warnings.filters[:1]), repr(B.epsilon),
        repr(B.default_dtype), repr(np.get_printoptions()), B.control_flow.caching, B.control_flow.use_cache,
        repr(B.ActiveDevice.active_name),
    )


def not_written(e):
    """Whether operations are supported and right is judged by other properties: an exception
    only matters here if it comes from an attempt to write in read-only memory."""
    return "read-only" not in str(e) and "read only" not in str(e)


def watch(ctx, inst, pool_objs, key, call, tb, sampling=False):
    B, m = ctx.B, ctx.m
    snap = Snapshot(pool_objs, m)
    state = global_state(B)
    res = ctx.call(key, call, inst.desc, inst.kinds + tb, nkron=99, may_reject=not_written)
    if not sampling and global_state(B) != state:
        ctx.fail(f"{key}:GLOBAL", f"{inst.desc}: the global state (random state, error handling, warning filters, defaults) changed")
    if isinstance(res, m.AbstractMatrix):
        # Asking for everything the result offers must not change anything either.
        ask = lambda: (B.shape(res), B.dtype(res), str(res), repr(res), B.dense(res))  # noqa
        ctx.call(f"ask[{key}]", ask, inst.desc, ("result",), nkron=99, may_reject=not_written)
    bad = snap.changes()
    ctx.event("snapshots_compared", f"{key}|{skeleton(inst.desc)[:90]}")
    ctx.events["array_contents_compared"] += len(snap.arrays)
    if bad:
        ctx.fail(f"{key}:CHANGED", f"{inst.desc}: {'; '.join(bad[:3])}")
    return res


def freeze(ctx, pool_):
    for x in pool_:
        for r in x.raws:
            if isinstance(r, np.ndarray):
                r.setflags(write=False)
                ctx.events["read_only_operands"] += 1
                while isinstance(r.base, np.ndarray):
                    r = r.base
                    r.setflags(write=False)


def run(ctx, rng, name, rep):
    B, m = ctx.B, ctx.m
    if name == "args":
        return args_untouched(ctx, rng)
    if name == "pd":
        g = GenPD(rng, m, str(rng.choice(["f8", "f8", "f4"])))
        B.epsilon = 1e-300 if g.dtype == "f8" else 0
        pds, outs = pd_pool(g)
        items = pds + outs
        if g.chance(0.5):
            freeze(ctx, items)
        objs = [x.obj for x in items]
        for _ in range(6):
            inst = pd_instance(B, m, g, pds, outs)
            if inst is None:
                continue
            tb = ("tb",) if any(is_tb(x) for x in inst.args) else ()
            if inst.name == "sample":
                key = "sample"
            res = watch(ctx, inst, objs, inst.name, inst.call, tb)
            if res is not SKIP:
                objs.append(res)
        return
    g = Gen(rng, m, str(rng.choice(["f8", "f8", "f4", "i8"])))
    items = pool(g, 5, kinds=MATRIX_KINDS if name == "mixed" else [name, name, "dense", "const"])
    if g.chance(0.5):
        freeze(ctx, items)
    objs = [x.obj for x in items]
    for _ in range(8):
        inst = instance(B, g, items)
        if inst is None:
            break
        tb = ("tb",) if any(is_tb(x) for x in inst.args) else ()
        res = watch(ctx, inst, objs, inst.name, inst.call, tb)
        ctx.sample(inst.desc)
        if res is SKIP:
            continue
        objs.append(res)
        if inst.matrix and isinstance(res, m.AbstractMatrix) and len(items) < 10 and np.max(inst.magnitude(), initial=0) < 1e12:
            items.append(as_item(res, inst, B, m))


def args_untouched(ctx, rng):
    """Lists, tuples and arrays given as arguments are as they were."""
    B, m = ctx.B, ctx.m
    g = Gen(rng, m)
    batch = g.batch(2)
    n = g.dim()
    x = g.matrix(g.pick([k for k in MATRIX_KINDS if k != "tb"]), n, n, batch)
    y = g.matrix(g.pick(["dense", "diag", "zero", "np", "lr"]), n, n, batch)
    idx = [int(i) for i in np.sort(rng.permutation(n)[: rng.integers(1, n + 1)])]
    mask = rng.random(n) < 0.6
    mask[0] = True
    row1, row2 = [x.obj, y.obj], [y.obj, x.obj]
    grid = [row1, row2]
    blocks = [(x.obj, 2), (y.obj, 1)]
    shape = [*x.val.shape[:-2], n * n]
    idx_a = np.array(idx)
    idx_n = np.array([i - n * int(rng.random() < 0.5) for i in idx])
    mask_l = [bool(b) for b in mask]
    given = dict(idx=idx, mask=mask, row1=row1, row2=row2, grid=grid, blocks=blocks, shape=shape, idx_a=idx_a, idx_n=idx_n, mask_l=mask_l)

    def render(v):
        if isinstance(v, np.ndarray):
            return (v.shape, v.dtype.str, v.tobytes())
        if isinstance(v, (list, tuple)):
            return [type(v).__name__] + [render(e) for e in v]
        return id(v) if not isinstance(v, (int, bool)) else v

    before = {k: render(v) for k, v in given.items()}
    todo = [
        ("take", lambda: B.take(x.obj, idx, axis=-1)), ("take", lambda: B.take(x.obj, mask, axis=-2)),
        ("take", lambda: B.take(x.obj, idx_a)), ("take", lambda: B.take(x.obj, mask_l)),
        ("take", lambda: B.take(x.obj, idx_n)), ("take", lambda: B.take(x.obj, idx_n, axis=-1)), ("take", lambda: B.take(y.obj, idx_n, axis=-2)),
        ("submatrix", lambda: B.submatrix(x.obj, idx_n)), ("submatrix", lambda: B.submatrix(x.obj, idx_a)), ("getitem", lambda: x.obj[idx_n]),
        ("getitem", lambda: x.obj[..., idx_n]), ("getitem", lambda: x.obj[..., idx_n, :]),
        ("submatrix", lambda: B.submatrix(x.obj, idx)), ("submatrix", lambda: B.submatrix(x.obj, mask)),
        ("block", lambda: B.block(*grid)), ("tiledblocks", lambda: B.dense(m.TiledBlocks(*blocks))),
        ("block_diag", lambda: B.block_diag(*row1)), ("reshape", lambda: x.obj.reshape(shape)),
        ("getitem", lambda: x.obj[..., idx]),
    ]
    todo += [(f.__name__, lambda f=f: f(x.obj, y.obj)) for f in (operator.iadd, operator.isub, operator.imul, operator.imatmul)]
    snap = Snapshot([x.obj, y.obj], m)
    for key, f in todo:
        ctx.call(key, f, f"{key}({x.desc}, {y.desc}, {idx})", (x.kind,), nkron=99, may_reject=not_written)
        ctx.event("argument_lists_compared", f"args|{key}|{x.kind}")
        now = {k: render(v) for k, v in given.items()}
        for k in given:
            if now[k] != before[k]:
                ctx.fail(f"{key}:ARGUMENT", f"{key}({x.desc}, {y.desc}): the argument {k} changed")
    bad = snap.changes()
    if bad:
        ctx.fail("args:CHANGED", f"{x.desc}, {y.desc}: {'; '.join(bad[:3])}")
