"""M05: log-determinants, inverse quadratic forms, ratios and traces."""

import numpy as np

from ..common import EPS, check, signature, tolfac
from ..gen import MATRIX_KINDS, SQUARE_ONLY, diag_embed, kron2, mm, mT
from ..genpd import GenPD, POperand
from .m04 import operand
from .. import probes

ID = "M05"
REPS = {"quick": 200, "thorough": 4200}
BUDGET = {"quick": 90, "thorough": 700}
MIN_EVENTS = {t: {"oracle_evaluations": 4000} for t in REPS}
RULE = (
    "one case = one log-determinant, inverse quadratic form (full or diagonal, two or three arguments), ratio or trace"
    " of freshly generated positive-definite operands, at scales whose determinant may under- or overflow. Distinct and"
    " non-trivial: distinct (functional, operand types incl. nested factors, batch and size pattern), non-zero result"
)
ASSUMPTIONS = [
    "the reference is numpy slogdet / inv of the dense matrix denoted by the raw arrays",
    "operands are well conditioned; the allowance is 1000 * eps * (product of the condition numbers involved)",
    "the jitter LAB adds before a Cholesky decomposition (B.epsilon) is set to zero",
]
PD = ["dense", "diag", "wb", "kron", "np", "lr", "const"]


def strata(tier):
    out = [f"logdet:{k}" for k in ["dense", "diag", "wb", "kron", "lt", "ut", "krontri", "lr", "const"]] * 5
    for k in PD:
        for b in MATRIX_KINDS + ["np"]:
            if k == b == "np":
                continue
            out += [f"iqf:{k}:{b}", f"iqf_diag:{k}:{b}"]
    for k in PD:
        for a in ["zero", "dense", "diag", "const", "lr", "wb", "kron", "np"]:
            if k == a == "np":
                continue
            out.append(f"ratio:{a}:{k}")
    out += [f"trace:{k}" for k in MATRIX_KINDS] * 2
    return out


def run(ctx, rng, name, rep):
    B = ctx.B
    op, *ks = name.split(":")
    dt = str(rng.choice(["f8", "f4"], p=[0.88, 0.12]))
    eps = EPS[dt]
    g = GenPD(rng, ctx.m, dt)
    batch = g.batch()
    n = min(g.dim(), 20)
    if "const" in (ks[0] if op != "ratio" else ks[1]):
        n = 1  # larger constant matrices are singular
    if op == "logdet":
        s = None
        if dt == "f8" and g.chance(0.3):
            s = g.pick([1e-60, 1e60, 1e-20, 1e20])
        k = ks[0]
        if s is not None and g.chance(0.5):
            n = int(g.pick([6, 8, 12, 16]))
        if k in ("lt", "ut"):
            a = None
            while a is None:
                a = g._inv_tri(n, batch, s or g.scale(), k == "lt", pos=True)
        elif k == "krontri":
            n1, n2 = g.split(n)
            xs = []
            for q in (n1, n2):
                x = None
                while x is None:
                    x = g.pd_matrix(g.pick(["dense", "lr"]), q, batch) if g.chance(0.4) else g._inv_tri(
                        q, batch, g.scale(), g.chance(0.5), pos=True
                    )
                xs.append(x)
            l, r = xs
            a = POperand(
                g.m.Kronecker(l.obj, r.obj), kron2(l.val, r.val), kron2(l.mag, r.mag),
                f"Kronecker[{l.desc}x{r.desc}]", "kron", l.raws + r.raws, dt, cond=l.cond * r.cond, parts=(l, r),
            )
        else:
            a = g.pd_matrix(k, n, batch, 0, s)
        # Rescale so that the reference itself cannot under- or overflow.
        sign, ref = np.linalg.slogdet(a.val)
        desc = f"logdet({a.desc}) scale={s} dtype={dt}"
        tol = 1000 * eps * (a.cond * n + np.abs(ref) + n * np.abs(np.log(np.max(a.mag, axis=(-1, -2)))))
        f = lambda: B.logdet(a.obj)  # noqa
        res = ctx.call(op, f, desc, ks)
        check(ctx, op, res, ref, tol, desc, ks, a)
    elif op in ("iqf", "iqf_diag"):
        a = g.pd_matrix(ks[0], n, batch)
        k1 = n if ks[1] in SQUARE_ONLY else g.dim()
        fix = op == "iqf_diag" or g.chance(0.3)
        kc = g.pick(MATRIX_KINDS + ["np"])
        if kc == "np" and ks[0] == "np" and g.chance(0.8):
            kc = "dense"
        k2 = n if kc in SQUARE_ONLY else (k1 if fix else g.dim())
        if op == "iqf_diag" and k2 != k1:
            if ks[1] in SQUARE_ONLY:
                kc, k2 = "dense", k1
            else:
                k1 = k2
        ex = lambda k, q: (g.exact(k, n, q, batch, "unit", 0) if k == "zero" else g.matrix(k, n, q, batch, "unit"))  # noqa
        b = ex(ks[1], k1)
        how = int(rng.integers(3))
        c = b if how < 2 else ex(kc, k2)
        inv = np.linalg.inv(a.val)
        sc = np.max(np.abs(inv), axis=(-1, -2), keepdims=True)
        bt, ct = np.sum(b.mag, -2), np.sum(c.mag, -2)
        if op == "iqf":
            ref = mm(mT(b.val), inv, c.val)
            mag = sc * (bt[..., :, None] * ct[..., None, :])
        else:
            ref = np.einsum("...ij,...ik,...kj->...j", b.val, inv, c.val)
            mag = sc[..., 0] * (bt * ct)
        f = getattr(B, op)
        if how == 0:
            fn = lambda: f(a.obj, b.obj)  # noqa
            desc = f"{op}({a.desc}, b={b.desc}) dtype={dt}"
        else:
            fn = lambda: f(a.obj, b.obj, c.obj)  # noqa
            desc = f"{op}({a.desc}, b={b.desc}, c={'b' if how == 1 else c.desc}) dtype={dt}"
        if ks[0] == "np" and "np" in (ks[1], kc):
            return
        kinds = (ks[0], ks[1]) + ((kc,) if how == 2 else ())
        res = ctx.call(op, fn, desc, kinds)
        check(ctx, op, res, ref, 1000 * eps * a.cond * mag, desc, kinds, a, b, c)
    elif op == "ratio":
        b = g.pd_matrix(ks[1], n, batch)
        a = operand(g, ks[0], n, batch) if ks[0] != "zero" else POperand(
            *[getattr(g.exact("zero", n, n, batch, "any", 0), q) for q in ("obj", "val", "mag", "desc", "kind", "raws", "dtype", "parts")]
        )
        if "Zero" in a.desc and np.broadcast_shapes(a.val.shape, b.val.shape) != a.val.shape:
            return  # Solving against a zero right-hand side keeps only its own batch (see M03).
        inv = np.linalg.inv(b.val)
        ref = np.einsum("...ij,...ji->...", inv, a.val)
        sc = np.max(np.abs(inv), axis=(-1, -2))
        mag = sc * np.sum(a.mag, axis=(-1, -2))
        desc = f"ratio({a.desc}, {b.desc}) dtype={dt}"
        res = ctx.call(op, lambda: B.ratio(a.obj, b.obj), desc, ks)
        check(ctx, op, res, ref, 1000 * eps * b.cond * a.cond * mag, desc, ks, a, b)
    else:
        n = g.dim()
        a = g.matrix(ks[0], n, n, batch)
        desc = f"trace({a.desc}) dtype={dt}"
        res = ctx.call("trace", lambda: B.trace(a.obj), desc, ks)
        check(
            ctx, op, res, np.einsum("...ii->...", a.val), tolfac(dt) * np.einsum("...ii->...", a.mag), desc, ks, a
        )


def setup(ctx):
    ctx.B.epsilon = 0.0


PROBES = {n: getattr(probes, n) for n in ["logdet_of_inverse"]}
