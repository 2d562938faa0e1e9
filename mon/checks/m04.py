"""M04: Cholesky factors and square roots reproduce the matrix they factorise."""

import numpy as np

from ..common import EPS, signature
from ..core import SKIP
from ..gen import kron2, mm, mT
from ..genpd import GenPD, POperand

ID = "M04"
REPS = {"quick": 800, "thorough": 6000}
BUDGET = {"quick": 90, "thorough": 600}
MIN_EVENTS = {t: {"factorisations": 2000} for t in REPS}
RULE = (
    "one case = one Cholesky factorisation or square root of a freshly generated positive (semi-)definite operand."
    " Oracle: the factor times its transpose (the root times itself) is the matrix, the Cholesky factor of a"
    " positive-definite matrix is lower triangular with a positive diagonal, the root is symmetric and positive"
    " semi-definite, and asking again gives the same answer. Distinct: (operation, operand types incl. nested factors,"
    " batch and size pattern) with a non-zero matrix"
)
ASSUMPTIONS = [
    "the jitter LAB adds before a Cholesky decomposition (B.epsilon) is set to zero",
    "the factor of a low-rank or constant matrix need not be triangular",
]
CHOL = ["zero", "dense", "diag", "const", "lr", "wb", "kron", "kronpsd", "np"]


def strata(tier):
    return [f"cholesky:{k}" for k in CHOL] * 4 + [f"root:{k}" for k in CHOL] * 3


def operand(g, k, n, batch):
    if k in ("zero", "const", "lr"):
        return g.psd_matrix(k, n, batch)
    if k == "kronpsd":
        n1, n2 = g.split(n)
        b = g.sub_batch(batch)
        xs = []
        for q in (n1, n2):
            kk = g.pick(["zero", "const", "lr", "dense", "diag"], p=[0.05, 0.25, 0.3, 0.2, 0.2])
            xs.append(g.pd_matrix(kk, q, b) if kk in ("dense", "diag") else g.psd_matrix(kk, q, b))
        l, r = xs
        return POperand(
            g.m.Kronecker(l.obj, r.obj), kron2(l.val, r.val), kron2(l.mag, r.mag),
            f"Kronecker[{l.desc}x{r.desc}]", "kron", l.raws + r.raws, g.dtype, parts=(l, r),
        )
    return g.pd_matrix(k, n, batch)


def run(ctx, rng, name, rep):
    B = ctx.B
    op, k = name.split(":")
    dt = str(rng.choice(["f8", "f4"], p=[0.88, 0.12]))
    g = GenPD(rng, ctx.m, dt, styles=["normal", "int", "sparse", "ones", "big", "small"])
    batch = g.batch()
    n = g.dim()
    a = operand(g, k, n, batch)
    desc = f"{op}({a.desc}) dtype={dt}"
    f = {"cholesky": g.pick([B.cholesky, B.chol]), "root": B.root}[op]
    res = ctx.call(op, lambda: f(a.obj), desc, (k[:4],))
    if res is SKIP:
        return
    d = ctx.numeric(op, res, desc)

    if d is SKIP:
        return
    d = np.asarray(d, float)
    ctx.event("factorisations")
    eps = EPS["f4"] if dt == "f4" else EPS["f8"]
    if d.shape[:-2] != a.val.shape[:-2] or d.shape[-2] != n or (op == "root" and d.shape[-1] != n):
        ctx.fail(f"{op}({k}):SHAPE", f"{desc}: factor of shape {d.shape} for a matrix of shape {a.val.shape}")
        return
    size = np.max(a.mag, axis=(-1, -2), keepdims=True) if a.mag.size else 0
    # Per-entry tolerance: the Cholesky decomposition is componentwise backward stable up to
    # the geometric mean of the diagonal.
    dg = np.sqrt(np.einsum("...ii->...i", a.mag))
    tol = 400 * (n + 3) * eps * (dg[..., :, None] * dg[..., None, :] + a.mag)
    if op == "root" or k in ("lr", "kron", "kronpsd", "wb"):
        tol = np.maximum(tol, 400 * (n + 3) * eps * size)
    prod = mm(d, mT(d)) if op == "cholesky" else mm(d, d)
    if not ctx.close(f"{op}({k})", prod, a.val, tol, desc + " recombined"):
        return
    if op == "cholesky" and k in ("dense", "diag", "wb", "kron", "np"):
        if np.any(np.triu(d, 1) != 0):
            ctx.fail(f"{op}({k}):TRIANGULAR", f"{desc}: factor is not lower triangular: {d}")
        if np.any(np.einsum("...ii->...i", d) <= 0):
            ctx.fail(f"{op}({k}):POSITIVE", f"{desc}: factor has a non-positive diagonal")
    if op == "root":
        rs = np.sqrt(size)
        if np.any(np.abs(d - mT(d)) > 400 * (n + 3) * eps * rs):
            ctx.fail(f"{op}({k}):SYMMETRIC", f"{desc}: root is not symmetric")
        w = np.linalg.eigvalsh((d + mT(d)) / 2)
        if np.any(w < -400 * (n + 3) * eps * rs[..., 0]):
            ctx.fail(f"{op}({k}):PSD", f"{desc}: root has eigenvalue {w.min()}")
    # The factor is served again, unchanged.
    res2 = ctx.call(op, lambda: f(a.obj), desc, (k[:4],))
    d2 = ctx.numeric(op, res2, desc)
    if d2 is not SKIP and not np.array_equal(d, d2):
        ctx.fail(f"{op}({k}):AGAIN", f"{desc}: a second call gives a different factor")
    if np.any(a.val):
        ctx.event("nontrivial", signature(op, a))
    ctx.sample(desc)


def setup(ctx):
    ctx.B.epsilon = 0.0
