"""M07: selecting, indexing, reshaping, tiling, concatenating and broadcasting."""

import numpy as np

from ..common import check, pick_dtype, signature, tolfac
from ..core import SKIP
from ..gen import Gen, MATRIX_KINDS, SQUARE_ONLY
from .. import probes

ID = "M07"
REPS = {"quick": 380, "thorough": 3200}
BUDGET = {"quick": 90, "thorough": 700}
MIN_EVENTS = {t: {"oracle_evaluations": 8000} for t in REPS}
RULE = (
    "one case = one freshly generated operand and one structural operation: take (index list/tuple/array or mask, any"
    " axis), submatrix, indexing, reshape/flatten, squeeze, tile, concat, broadcast_to, broadcast_batch_to, to_numpy,"
    " ones/zeros/eye like. Distinct and non-trivial: distinct (operation, operand type incl. nested factors, batch and"
    " size pattern, selection style) with a non-zero result"
)
ASSUMPTIONS = [
    "NumPy indexing of the dense matrix denoted by the raw arrays is the reference",
    "selections are non-empty; submatrices of diagonal, triangular and Woodbury matrices use distinct increasing indices",
]
OPS = [
    "take", "take", "take", "mask", "mask", "submatrix", "submatrix", "getitem", "reshape", "squeeze", "tile", "concat",
    "bto", "bto", "bbt", "bbt", "to_numpy", "like",
]


def strata(tier):
    return [f"{op}:{k}" for op in OPS for k in MATRIX_KINDS]


def indices(g, n, distinct=False, sort=False):
    rng = g.rng
    if distinct:
        idx = rng.permutation(n)[: rng.integers(1, n + 1)]
        idx = np.sort(idx)
    else:
        idx = rng.integers(-n if g.chance(0.3) else 0, n, size=rng.integers(1, n + 3))
    how = g.pick(["list", "tuple", "arr"])
    val = {"list": lambda: [int(i) for i in idx], "tuple": lambda: tuple(int(i) for i in idx), "arr": lambda: idx}[how]()
    return idx, val, how


def mask_of(g, n):
    rng = g.rng
    m = rng.random(n) < 0.55
    if not m.any():
        m[rng.integers(n)] = True
    how = g.pick(["list", "tuple", "arr"])
    val = {"list": lambda: [bool(i) for i in m], "tuple": lambda: tuple(bool(i) for i in m), "arr": lambda: m}[how]()
    return m, val, how


def run(ctx, rng, name, rep):
    B = ctx.B
    op, k = name.split(":")
    dt = pick_dtype(rng)
    g = Gen(rng, ctx.m, dt)
    batch = g.batch()
    n = g.dim()
    square = k in SQUARE_ONLY or op == "submatrix" or g.chance(0.3)
    a = g.matrix(k, n if square else g.dim(), n, batch)
    v, mag, r = a.val, a.mag, a.val.ndim
    t = tolfac(dt)
    desc = f"{op}({a.desc}) dtype={dt}"

    def go(tag, f, fn, *extra):
        res = ctx.call(op if op not in ("bto", "bbt") else "broadcast_batch_to", f, desc + tag, (k,))
        if res is SKIP:
            return
        check(ctx, f"{op}", res, fn(v), t * fn(mag), desc + tag, (k,), a)
        return res

    if op in ("take", "mask"):
        ax = int(rng.integers(-r, r)) if g.chance(0.6) else int(g.pick([-1, -2]))
        # The matrix, not its broadcast batch, says how long an axis is.
        L = v.shape[ax]
        idx, val, how = (indices if op == "take" else mask_of)(g, L)
        fn = (lambda x: np.take(x, idx, axis=ax)) if op == "take" else (lambda x: np.compress(idx, x, axis=ax))
        kw = {} if ax == -2 and g.chance(0.5) else {"axis": ax}
        go(f" {how}={val} axis={ax}", lambda: B.take(a.obj, val, **kw), fn)
    elif op == "submatrix":
        if g.chance(0.5):
            idx, val, how = indices(g, n, distinct=k in ("diag", "lt", "ut", "wb"))
        else:
            idx, val, how = mask_of(g, n)
        go(f" {how}={val}", lambda: B.submatrix(a.obj, val), lambda x: x[..., idx, :][..., :, idx])
    elif op == "getitem":
        def item(L):
            c = rng.integers(5)
            if c == 0:
                return int(rng.integers(-L, L))
            if c == 1:
                return slice(None)
            if c == 2:
                return slice(int(rng.integers(0, L)), None, int(g.pick([1, 2])))
            if c == 3:
                return slice(None, None, -1)
            return slice(0, int(rng.integers(0, L)) + 1)

        c = rng.integers(4)
        if c == 0:
            it = item(v.shape[0])
        elif c == 1:
            it = tuple(item(L) for L in v.shape)
        elif c == 2:
            it = (Ellipsis, item(v.shape[-1]))
        else:
            it = (None,) + tuple(item(L) for L in v.shape[: int(rng.integers(0, r + 1))])
        go(f"[{it}]", lambda: a.obj[it], lambda x: x[it])
    elif op == "reshape":
        total = v.size
        divs = [d for d in range(1, total + 1) if total % d == 0]
        d1 = int(g.pick(divs))
        rest = total // d1
        d2 = int(g.pick([d for d in range(1, rest + 1) if rest % d == 0]))
        shp = g.pick([(-1,), (d1, rest), (d1, -1), (d1, d2, rest // d2)])
        how = g.pick(["B", "method", "tuple", "flatten"])
        f = {
            "B": lambda: B.reshape(a.obj, *shp),
            "method": lambda: a.obj.reshape(*shp),
            "tuple": lambda: a.obj.reshape(shp),
            "flatten": lambda: a.obj.flatten(),
        }[how]
        if how == "flatten":
            shp = (-1,)
        go(f" {how} {shp}", f, lambda x: x.reshape(shp))
    elif op == "squeeze":
        go("", (lambda: B.squeeze(a.obj)) if g.chance(0.5) else (lambda: a.obj.squeeze()), lambda x: x.squeeze())
    elif op == "tile":
        reps = [int(g.pick([1, 2, 3], p=[0.45, 0.35, 0.2])) for _ in range(r)]
        go(f" {reps}", lambda: B.tile(a.obj, *reps), lambda x: np.tile(x, reps))
    elif op == "concat":
        num = int(g.pick([1, 2, 3]))
        ax = int(rng.integers(-r, r))
        xs = [a]
        for _ in range(num - 1):
            shp = list(v.shape)
            shp[ax] = g.dim(3) if ax % r < r - 2 else g.dim()
            kinds = [q for q in MATRIX_KINDS if shp[-1] == shp[-2] or q not in SQUARE_ONLY]
            kk = k if k == "tb" and g.chance(0.7) else g.pick(kinds)
            if kk == "tb" and g.chance(0.6) and a.obj.__class__.__name__ == "TiledBlocks":
                kw = dict(axis=ax - r if ax >= 0 else ax)
                sub = g.sub_batch
                g.sub_batch = lambda tgt, p=0.5: tuple(tgt)
                x = g._tb(shp[-2], shp[-1], tuple(shp[:-2]), "any", 1, **kw)
                g.sub_batch = sub
            else:
                x = g.exact(kk, shp[-2], shp[-1], tuple(shp[:-2]), "any", 1)
            xs.append(x)
        tag = f" with {[x.desc for x in xs[1:]]} axis={ax}"
        kw = {} if ax == 0 and g.chance(0.5) else {"axis": ax}
        ops = [x.obj for x in xs]
        res = ctx.call(op, lambda: B.concat(*ops, **kw), desc + tag, tuple(x.kind for x in xs))
        check(
            ctx, op, res, np.concatenate([x.val for x in xs], axis=ax), t * np.concatenate([x.mag for x in xs], axis=ax),
            desc + tag, tuple(x.kind for x in xs), *xs,
        )
    elif op in ("bto", "bbt"):
        lead = tuple(int(x) for x in rng.integers(1, 4, size=int(g.pick([0, 1, 2]))))
        tgt = lead + tuple(int(g.pick([1, 3, 4])) if x == 1 else x for x in v.shape[:-2])
        if op == "bbt":
            tgt = tuple(tgt)
            go(f" to {tgt}", lambda: B.broadcast_batch_to(a.obj, *tgt), lambda x: np.broadcast_to(x, tgt + v.shape[-2:]))
        else:
            mt = tuple(int(g.pick([1, 3, 4])) if x == 1 and k not in SQUARE_ONLY else x for x in v.shape[-2:])
            go(f" to {tgt + mt}", lambda: B.broadcast_to(a.obj, *tgt, *mt), lambda x: np.broadcast_to(x, tgt + mt))
    elif op == "to_numpy":
        res = go("", lambda: B.to_numpy(a.obj), lambda x: x)
        if res is not None and res is not SKIP and type(res) is not np.ndarray:
            ctx.fail("to_numpy:TYPE", f"{desc}: {type(res)}")
    else:
        how = g.pick(["ones", "zeros", "eye"] if v.shape[-1] == v.shape[-2] else ["ones", "zeros"])
        ref = {
            "ones": lambda x: np.ones_like(x),
            "zeros": lambda x: np.zeros_like(x),
            "eye": lambda x: np.broadcast_to(np.eye(v.shape[-1]), v.shape),
        }[how](v)
        res = ctx.call(op, lambda: getattr(B, how)(a.obj), desc + how, (k,))
        if how == "eye" and res is not SKIP:
            d = ctx.numeric(op, res, desc + how)
            # The identity is compared up to broadcasting of its batch.
            if d is SKIP or not np.array_equal(np.broadcast_to(d, v.shape), ref):
                ctx.fail("eye", f"{desc}: eye is wrong")
            else:
                ctx.event("oracle_evaluations")
        else:
            check(ctx, how, res, ref, 0 * ref, desc + how, (k,), a)


PROBES = {n: getattr(probes, n) for n in ["submatrix_repeated", "submatrix_unsorted"]}
