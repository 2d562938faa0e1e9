"""M01: element-wise arithmetic on structured matrices equals dense arithmetic."""

import operator

from ..common import check, pick_dtype, tolfac
from ..gen import Gen, MATRIX_KINDS, SQUARE_ONLY
from .. import probes

ID = "M01"
REPS = {"quick": 140, "thorough": 3000}
BUDGET = {"quick": 90, "thorough": 700}
MIN_EVENTS = {t: {"oracle_evaluations": 5000} for t in REPS}
RULE = (
    "one case = one element-wise operation (add, subtract, multiply, divide, negative, abs, sqrt, power; operator or"
    " function form; the same object on both sides) on freshly generated operands of every ordered pair of types."
    " Distinct and non-trivial: distinct (operation, operand types incl. nested factors, batch and size pattern) with a"
    " non-zero result"
)
ASSUMPTIONS = [
    "NumPy arithmetic on the dense matrix denoted by the raw arrays is the reference",
    "rounding of a correct implementation stays below 2e4 * eps * (the same operation on absolute terms)",
    "square-by-type operands (diagonal, triangular, Woodbury) are not broadcast over the matrix axes",
]
BIN = {
    "add": (operator.add, lambda x, y: x + y, lambda x, y: x + y),
    "subtract": (operator.sub, lambda x, y: x - y, lambda x, y: x + y),
    "multiply": (operator.mul, lambda x, y: x * y, lambda x, y: x * y),
    "divide": (operator.truediv, lambda x, y: x / y, None),
}


def strata(tier):
    out = []
    ks = MATRIX_KINDS + ["np", "scalar"]
    for op in BIN:
        for a in ks:
            for b in ks:
                if a in ("np", "scalar") and b in ("np", "scalar"):
                    continue
                if op == "divide" and b not in ("dense", "const", "np", "scalar", "kron"):
                    continue
                out.append(f"{op}:{a}:{b}")
    for op in ["negative", "abs", "sqrt", "power", "same", "fracpower"]:
        for a in MATRIX_KINDS:
            out.append(f"{op}:{a}")
    # Sums of low-rank matrices that share, nearly share or permute their factors.
    out += ["align:add", "align:subtract"] * 20
    return out


def align_case(ctx, g, rng, op, batch, dt):
    """Two low-rank (or Woodbury) matrices whose factors share columns exactly, up to a sign,
    up to a small but real difference, or in some batch elements only."""
    from ..gen import Operand, mm, mT

    np = ctx.np
    m, n = g.dim(), g.dim()
    if g.chance(0.5):
        n = m
    r = int(rng.integers(1, 5))
    b = g.sub_batch(batch)
    L = np.array(g.raw(b + (m, r)), dtype=float)
    R = np.array(g.raw(b + (n, r)), dtype=float)
    if g.chance(0.25):
        L = L * 10.0 ** float(rng.integers(-12, 13)) if dt == "f8" else L
    unit = np.ones(b + (1, 1))
    if b and dt == "f8" and g.chance(0.3):
        # The elements of the batch have very different sizes.
        unit = 10.0 ** rng.integers(-14, 3, size=b + (1, 1)).astype(float)
        L = L * unit
    shared = int(rng.integers(0, r + 1))
    q = max(shared, int(rng.integers(1, 5)))
    b2 = b if g.chance(0.7) else g.sub_batch(batch)
    L2 = np.array(g.raw(b2 + (m, q)), dtype=float)
    R2 = np.array(g.raw(b2 + (n, q)), dtype=float)
    how = "other"
    if b2 == b:
        L2 = L2 * unit
        cols = rng.permutation(r)[:shared]
        pos = rng.permutation(q)[:shared]
        L2[..., pos] = L[..., cols]
        if g.chance(0.7):
            R2[..., pos] = R[..., cols]
        how = g.pick(["exact", "near", "sign", "onebatch"])
        if how == "near" and dt != "i8":
            d = 10.0 ** float(g.pick([-2, -3, -4, -5, -6] if dt == "f8" else [-1, -2, -3]))
            L2 = L2 * (1 + d * rng.choice([-1.0, 1.0], size=L2.shape))
        elif how == "sign":
            L2 = L2 * rng.choice([-1.0, 1.0], size=(q,))
        elif how == "onebatch" and b:
            i = tuple(int(rng.integers(k)) for k in b)
            L2[i] = L2[i] + rng.integers(1, 3, size=L2[i].shape) * unit[i]
    owner = {}
    if b2 == b and g.chance(0.15):
        # Both are built from one and the same object on the left, or on the right.
        q, how, shared = r, "object", r
        L2, R2 = L.copy(), np.array(g.raw(b + (n, r)), dtype=float)
        if g.chance(0.3):
            L2, R2 = np.array(g.raw(b + (m, r)), dtype=float), R.copy()
    cast = lambda x: x.astype(g.np_dtype)  # noqa
    L, R, L2, R2 = cast(L), cast(R), cast(L2), cast(R2)
    same = m == n and how != "object" and g.chance(0.3)
    wrap = (lambda x: ctx.m.Dense(x)) if g.chance(0.5) else (lambda x: x)
    if how == "object":
        wrap0 = wrap
        wrap = lambda x: owner.setdefault(x.tobytes() + repr(x.shape).encode(), wrap0(x))  # noqa
    M = M2 = None
    if g.chance(0.5):
        M = g.raw(g.sub_batch(b) + (r, r))
    if g.chance(0.5):
        M2 = g.raw(g.sub_batch(b) + (q, q))
    if b and b2 == b and how != "object" and not same and g.chance(0.15):
        # Over the same columns, some elements of the batch cancel and others do not.
        how = "partial"
        one = int(rng.integers(3))
        if one:  # the columns may be the same for the whole batch
            L, R = [x[(slice(0, 1),) * len(b)] if one == 1 else x[(0,) * len(b)] for x in (L, R)]
        q, perm = r, rng.permutation(r)
        L2, R2 = L[..., perm], R[..., perm]
        M = np.array(g.raw(b + (r, r)))
        M2 = (-M if op == "add" else M)[..., perm, :][..., perm]
        left = rng.random(b) < 0.6
        M2 = np.where(left[..., None, None], M2, g.raw(b + (r, r))).astype(M.dtype)

    def mk(L, R, M):
        k = L.shape[-1]
        R = L if same else R
        f = lambda x: np.asarray(x, float)  # noqa
        mid = f(M) if M is not None else np.eye(k)
        kw = {} if M is None else {"middle": wrap(M)}
        if not same:
            kw["right"] = wrap(R)
        val = mm(f(L), mid, mT(f(R)))
        mag = mm(np.abs(f(L)), np.abs(mid), np.abs(mT(f(R))))
        desc = f"LowRank[{L.shape}|{'M' if M is not None else 'I'}|{R.shape}]"
        return Operand(ctx.m.LowRank(wrap(L), **kw), val, mag, desc, "lr", [], dt)

    a = mk(L, R, M)
    c = mk(L2, R2, M2)
    if g.chance(0.15):
        c, how = a, "identical"
    if m == n and g.chance(0.3):
        d = g.matrix("diag", n, n, batch)
        desc = f"Woodbury[{d.desc}+{a.desc}]"
        a = Operand(ctx.m.Woodbury(d.obj, a.obj), a.val + d.val, a.mag + d.mag, desc, "wb", [], dt)
    if g.chance(0.3):
        a, c = c, a
    pyop, rf, gf = BIN[op]
    desc = f"{op}({a.desc}, {c.desc}) {how} shared={shared} same={same} dtype={dt}"
    res = ctx.call(op, lambda: pyop(a.obj, c.obj), desc, (a.kind, c.kind))
    tol = tolfac(dt) * gf(a.mag, c.mag)
    if check(ctx, "align", res, rf(a.val, c.val), tol, desc, (a.kind, c.kind), a, c):
        ctx.event("aligned_sums", f"align|{how}|{shared}|{r}|{q}|{same}|{len(b)}|{len(b2)}")


def shapes(g, ka, kb):
    """Shapes of the two operands; operands that need not be square may broadcast."""
    n = g.dim()
    m = n if (ka in SQUARE_ONLY or kb in SQUARE_ONLY or g.chance(0.3)) else g.dim()
    out = []
    for k in (ka, kb):
        s = (m, n)
        if k not in SQUARE_ONLY and g.chance(0.22):
            s = [(1, n), (m, 1), (1, 1)][g.rng.integers(3)]
        out.append(s)
    return out


def run(ctx, rng, name, rep):
    B, np = ctx.B, ctx.np
    op, *ks = name.split(":")
    dt = pick_dtype(rng)
    if op in ("sqrt", "fracpower") or (op == "divide" and dt == "i8"):
        dt = "f8" if dt == "i8" else dt
    g = Gen(rng, ctx.m, dt)
    batch = g.batch()
    if op == "align":
        g.styles = ["normal", "int", "ones", "sparse"]
        return align_case(ctx, g, rng, ks[0], batch, dt)
    if op in BIN:
        ka, kb = ks
        sa, sb = shapes(g, ka, kb)
        prof_b = "nonzero" if op == "divide" else "any"
        if op == "divide" and kb == "kron":
            g.max_nest = 0
        a = g.scalar() if ka == "scalar" else g.matrix(ka, *sa, batch)
        b = g.scalar(prof_b) if kb == "scalar" else g.matrix(kb, *sb, batch, prof_b)
        if op == "divide" and kb == "kron":
            g.max_nest = 2
        pyop, rf, gf = BIN[op]
        ref = rf(a.val, b.val)
        if op == "divide":
            mag = a.mag / np.abs(b.val)
        else:
            mag = gf(a.mag, b.mag)
        desc = f"{op}({a.desc}, {b.desc}) dtype={dt}"
        ao, bo = a.obj, b.obj
        use_op = g.chance(0.5)
        if use_op:
            res = ctx.call(op, lambda: pyop(ao, bo), desc, (ka, kb))
        else:
            res = ctx.call(op, lambda: getattr(B, op)(ao, bo), desc, (ka, kb))
        check(ctx, op, res, ref, tolfac(a.dtype, b.dtype) * mag, desc, (ka, kb), a, b)
    elif op == "same":
        # The very same object on both sides.
        n = g.dim()
        a = g.matrix(ks[0], n, n if ks[0] in SQUARE_ONLY or g.chance(0.5) else g.dim(), batch)
        o = g.pick(["add", "subtract", "multiply"])
        desc = f"{o}(x, x) with x={a.desc} dtype={dt}"
        res = ctx.call(o, lambda: BIN[o][0](a.obj, a.obj), desc, (ks[0], ks[0]))
        check(ctx, "same", res, BIN[o][1](a.val, a.val), tolfac(dt) * BIN[o][2](a.mag, a.mag), desc, ks, a, a)
    else:
        k = ks[0]
        n = g.dim()
        m = n if k in SQUARE_ONLY or g.chance(0.3) else g.dim()
        if op in ("sqrt", "fracpower"):
            a = g.matrix(k, m, n, batch, "nonneg")
        else:
            a = g.matrix(k, m, n, batch)
        t = tolfac(dt)
        desc = f"{op}({a.desc}) dtype={dt}"
        if op == "negative":
            f = (lambda: -a.obj) if g.chance(0.5) else (lambda: B.negative(a.obj))
            ref, tol = -a.val, t * a.mag
        elif op == "abs":
            f, ref, tol = (lambda: B.abs(a.obj)), np.abs(a.val), t * a.mag
        elif op == "sqrt":
            f, ref, tol = (lambda: B.sqrt(a.obj)), np.sqrt(a.val), t * np.sqrt(a.mag)
        elif op == "fracpower":
            p = g.pick([0.5, 1.5, 0.25, 2.5])
            f, ref, tol = (lambda: a.obj**p), a.val**p, t * a.mag**p
            desc += f" p={p}"
        else:
            p = g.pick([1, 2, 3, 2.0, 3.0])
            f = (lambda: a.obj**p) if g.chance(0.5) else (lambda: B.power(a.obj, p))
            ref, tol = a.val**p, t * a.mag**p
            desc += f" p={p}"
        res = ctx.call(op, f, desc, (k,))
        check(ctx, op, res, ref, tol, desc, (k,), a, a)


PROBES = {n: getattr(probes, n) for n in ["zero_exponent", "broadcast_1x1"]}
