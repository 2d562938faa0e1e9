"""M02: matrix products, Kronecker products and transposes equal their dense counterparts."""

import operator

from ..common import check, pick_dtype, tolfac
from ..gen import Gen, MATRIX_KINDS, SQUARE_ONLY, kron2, mm, mT

ID = "M02"
REPS = {"quick": 220, "thorough": 3000}
BUDGET = {"quick": 90, "thorough": 700}
MIN_EVENTS = {t: {"oracle_evaluations": 5000} for t in REPS}
RULE = (
    "one case = one product: matmul with every transposition flag combination (function or @ operator, matrix or array"
    " operands), three-factor matmul with flags, diagonal of a product, Kronecker product, or transpose, on freshly"
    " generated operands of every ordered pair of types. Distinct and non-trivial: distinct (operation, flags, operand"
    " types incl. nested factors, batch and size pattern) with a non-zero result"
)
ASSUMPTIONS = [
    "NumPy products of the raw arrays are the reference",
    "rounding of a correct implementation stays below 8e4 * eps * (product of absolute factors)",
    "products of Kronecker products whose factors do not fit together are rejected (documented)",
]


def strata(tier):
    out = []
    for a in MATRIX_KINDS + ["np"]:
        for b in MATRIX_KINDS + ["np"]:
            if a == b == "np":
                continue
            out += [f"matmul:{a}:{b}"] * 2
            out += [f"matmul_diag:{a}:{b}", f"kron:{a}:{b}"]
    out += ["kronkron"] * 4
    out += [f"mm3:{a}" for a in MATRIX_KINDS] * 3
    out += [f"transpose:{a}" for a in MATRIX_KINDS]
    out += [f"self:{a}" for a in MATRIX_KINDS]
    return out


def T(x, do):
    return mT(x) if do else x


def operand(g, k, rows, cols, tr, batch):
    if tr:
        rows, cols = cols, rows
    return g.matrix(k, rows, cols, batch)


def run(ctx, rng, name, rep):
    B, np = ctx.B, ctx.np
    op, *ks = name.split(":")
    dt = pick_dtype(rng)
    g = Gen(rng, ctx.m, dt)
    batch = g.batch()
    t = tolfac(dt) * 4
    p, q, s = g.dim(), g.dim(), g.dim()
    ta, tb = g.chance(0.5), g.chance(0.5)
    if op in ("matmul", "matmul_diag"):
        ka, kb = ks
        if ka in SQUARE_ONLY:
            p = q
        if kb in SQUARE_ONLY:
            s = q
        if op == "matmul_diag":
            if p != s:
                if ka in SQUARE_ONLY and kb in SQUARE_ONLY:
                    p = s = q
                elif ka in SQUARE_ONLY:
                    s = p
                else:
                    p = s
        a = operand(g, ka, p, q, ta, batch)
        b = operand(g, kb, q, s, tb, batch)
        av, bv, am, bm = T(a.val, ta), T(b.val, tb), T(a.mag, ta), T(b.mag, tb)
        desc = f"{op}({a.desc}, {b.desc}, tr_a={ta}, tr_b={tb}) dtype={dt}"
        if op == "matmul":
            ref, mag = mm(av, bv), mm(am, bm)
            if not ta and not tb and g.chance(0.5):
                f = lambda: a.obj @ b.obj  # noqa
            elif g.chance(0.15):
                f = lambda: T_(a.obj, ta) @ T_(b.obj, tb)  # noqa
            else:
                f = lambda: B.matmul(a.obj, b.obj, tr_a=ta, tr_b=tb)  # noqa
        else:
            ref = np.einsum("...ij,...ji->...i", av, bv)
            mag = np.einsum("...ij,...ji->...i", am, bm)
            f = lambda: B.matmul_diag(a.obj, b.obj, tr_a=ta, tr_b=tb)  # noqa
        res = ctx.call(op, f, desc, (ka, kb))
        check(ctx, f"{op}{int(ta)}{int(tb)}", res, ref, t * mag, desc, (ka, kb), a, b)
    elif op == "kronkron":
        # Products of Kronecker products whose factors do fit: these must not be rejected.
        d = [int(x) for x in rng.integers(1, 4, size=6)]
        g.max_nest = 1

        def kr(r1, c1, r2, c2, tr):
            if tr:
                r1, c1, r2, c2 = c1, r1, c2, r2
            x, y = g.matrix("dense", r1, c1, batch), g.matrix("dense", r2, c2, batch)
            return ctx.m.Kronecker(x.obj, y.obj), kron2(x.val, y.val), kron2(x.mag, y.mag)

        ao, av, am = kr(d[0], d[1], d[2], d[3], ta)
        bo, bv, bm = kr(d[1], d[4], d[3], d[5], tb)
        desc = f"matmul(kron{av.shape}, kron{bv.shape}, tr_a={ta}, tr_b={tb})"
        res = ctx.call("matmul", lambda: B.matmul(ao, bo, tr_a=ta, tr_b=tb), desc, nkron=0)
        if ctx.close("matmul(kron,kron)", res, mm(T(av, ta), T(bv, tb)), t * mm(T(am, ta), T(bm, tb)), desc):
            ctx.event("nontrivial", f"kronkron|{d}|{ta}{tb}|{len(batch)}")
        ao, av, am = kr(d[0], d[1], d[2], d[3], False)
        bo, bv, bm = kr(d[0], d[1], d[2], d[3], False)
        res = ctx.call("multiply", lambda: ao * bo, desc, nkron=0)
        ctx.close("multiply(kron,kron)", res, av * bv, t * am * bm, f"kron{av.shape}*kron{bv.shape}")
    elif op == "kron":
        a = g.matrix(ks[0], min(p, 5), min(p if ks[0] in SQUARE_ONLY else q, 5), batch)
        b = g.matrix(ks[1], min(s, 5), min(s if ks[1] in SQUARE_ONLY else q, 5), batch)
        desc = f"kron({a.desc}, {b.desc}) dtype={dt}"
        ref, mag = kron2(a.val, b.val), kron2(a.mag, b.mag)
        if "np" in ks:
            # LAB's own `kron` of arrays takes all axes: only defined for matrices here.
            if a.val.ndim > 2 or b.val.ndim > 2:
                pass
        res = ctx.call("kron", lambda: B.kron(a.obj, b.obj), desc, ks)
        check(ctx, "kron", res, ref, t * mag, desc, ks, a, b)
    elif op == "mm3":
        kinds = [ks[0], g.pick(MATRIX_KINDS + ["np"]), g.pick(MATRIX_KINDS + ["np"])]
        rng.shuffle(kinds)
        kinds = [str(k) for k in kinds]
        dims = [p, q, s, g.dim()]
        for i, k in enumerate(kinds):
            if k in SQUARE_ONLY:
                dims[i + 1] = dims[i]
        # A square requirement further on may have changed an earlier dimension.
        for i, k in reversed(list(enumerate(kinds))):
            if k in SQUARE_ONLY:
                dims[i] = dims[i + 1]
        for i, k in enumerate(kinds):
            if k in SQUARE_ONLY:
                dims[i + 1] = dims[i]
        fl = [g.chance(0.5) for _ in range(3)]
        xs = [operand(g, k, dims[i], dims[i + 1], fl[i], batch) for i, k in enumerate(kinds)]
        desc = f"matmul({', '.join(x.desc for x in xs)}, tr={fl}) dtype={dt}"
        ref = mm(*[T(x.val, f) for x, f in zip(xs, fl)])
        mag = mm(*[T(x.mag, f) for x, f in zip(xs, fl)])
        f = B.mm if g.chance(0.5) else B.matmul
        res = ctx.call(
            "matmul", lambda: f(*[x.obj for x in xs], tr_a=fl[0], tr_b=fl[1], tr_c=fl[2]), desc, kinds
        )
        check(ctx, "mm3", res, ref, 8 * t * mag, desc, kinds, *xs)
    elif op == "transpose":
        a = g.matrix(ks[0], p, p if ks[0] in SQUARE_ONLY else q, batch)
        desc = f"transpose({a.desc}) dtype={dt}"
        f = (lambda: a.obj.T) if g.chance(0.5) else (lambda: B.transpose(a.obj))
        res = ctx.call("transpose", f, desc, ks)
        if check(ctx, "transpose", res, mT(a.val), t * mT(a.mag), desc, ks, a):
            res = ctx.call("transpose", lambda: B.transpose(res), desc, ks)
            check(ctx, "transpose2", res, a.val, t * a.mag, desc, ks, a)
    elif op == "self":
        a = g.matrix(ks[0], p, p if ks[0] in SQUARE_ONLY else q, batch)
        tb = not ta
        if a.val.shape[-1] == a.val.shape[-2] and g.chance(0.5):
            tb = ta
        desc = f"matmul(x, x, tr_a={ta}, tr_b={tb}) with x={a.desc} dtype={dt}"
        res = ctx.call("matmul", lambda: B.matmul(a.obj, a.obj, tr_a=ta, tr_b=tb), desc, ks, nkron=2 * desc.count("Kronecker"))
        check(ctx, "self", res, mm(T(a.val, ta), T(a.val, tb)), t * mm(T(a.mag, ta), T(a.mag, tb)), desc, ks, a)


def T_(x, do):
    if not do:
        return x
    return x.T if not hasattr(x, "ndim") else mT(x)
