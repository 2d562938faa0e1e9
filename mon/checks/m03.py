"""M03: inverses, solves and Schur complements satisfy their defining equations."""

import sys
import warnings

import numpy as np

from ..common import EPS, check, signature
from ..core import SKIP
from ..gen import MATRIX_KINDS, mm, mT
from ..genpd import GenPD
from .. import probes

ID = "M03"
REPS = {"quick": 240, "thorough": 2600}
BUDGET = {"quick": 90, "thorough": 700}
MIN_EVENTS = {t: {"oracle_evaluations": 4000} for t in REPS}
RULE = (
    "one case = one inverse, positive-definite inverse, linear solve, triangular or Cholesky solve, or Schur complement"
    " of a freshly generated invertible operand (bounded condition number, scale 1e-8 to 1e8) against a right-hand side"
    " of any type. Distinct and non-trivial: distinct (operation, operand types incl. nested factors, batch and size"
    " pattern) with a non-zero result"
)
ASSUMPTIONS = [
    "the reference is numpy.linalg.inv of the dense matrix denoted by the raw arrays",
    "operands are well conditioned; the allowance is 500 * eps * (product of the condition numbers involved)",
    "solving against a zero right-hand side: the batch shape of the right-hand side covers that of the left-hand side",
]

INV = ["dense", "diag", "wb", "kron"]
PD = ["dense", "diag", "wb", "kron", "np"]
SOLVE = ["dense", "diag", "lt", "ut", "wb", "kron", "np", "lr"]


def strata(tier):
    out = [f"inv:{k}" for k in INV] * 4 + [f"inv2:{k}" for k in INV]
    out += [f"pd_inv:{k}" for k in PD] * 3
    for k in SOLVE:
        for b in MATRIX_KINDS + ["np"]:
            if (k, b) != ("np", "np"):
                out.append(f"solve:{k}:{b}")
    for k in ("lt", "ut"):
        for b in MATRIX_KINDS + ["np"]:
            out.append(f"trisolve:{k}:{b}")
    for k in ("lt", "ut", "diag"):
        for b in MATRIX_KINDS + ["np"]:
            out.append(f"cholsolve:{k}:{b}")
    out += ["cholsolve:kron:kron"] * 3
    out += ["schur", "pd_schur"] * 4
    return out


def tolerance(a, *ref):
    """Allowance relative to the largest entry of each matrix in the batch."""
    eps = EPS["f4"] if a.dtype == "f4" else EPS["f8"]
    return 500 * eps * a.cond


def scale_of(x):
    return np.max(np.abs(x), axis=(-1, -2), keepdims=True)


def run(ctx, rng, name, rep):
    B = ctx.B
    op, *ks = name.split(":")
    dt = str(rng.choice(["f8", "f4"], p=[0.88, 0.12]))
    g = GenPD(rng, ctx.m, dt)
    batch = g.batch()
    n = g.dim()
    if n > 8:
        n = min(n, 20)
    if op in ("inv", "inv2", "pd_inv"):
        a = (g.pd_matrix if op == "pd_inv" else g.inv_matrix)(ks[0], n, batch)
        ref = np.linalg.inv(a.val)
        desc = f"{op}({a.desc}) dtype={dt}"
        f = {"inv": B.inv, "inv2": B.inv, "pd_inv": B.pd_inv}[op]
        res = ctx.call(op, lambda: f(a.obj), desc, ks)
        tol = tolerance(a) * scale_of(ref)
        if check(ctx, op, res, ref, tol, desc, ks, a) and op == "inv2":
            if ks[0] in ("dense", "diag", "kron"):
                res = ctx.call("inv", lambda: B.inv(res), "inv " + desc, ks)
                check(ctx, op, res, a.val, tolerance(a) * 20 * scale_of(a.val) * 10, "inv " + desc, ks, a)
            else:
                m = ctx.call("matmul", lambda: B.matmul(a.obj, res), "a @ inv(a): " + desc, ks)
                t = tolerance(a) * 50 * scale_of(ref) * scale_of(a.mag) * n
                check(ctx, op, m, np.broadcast_to(np.eye(n), a.val.shape), t, "a @ inv(a): " + desc, ks, a)
    elif op in ("solve", "trisolve"):
        a = g.inv_matrix(ks[0], n, batch)
        k = n if ks[1] in ("diag", "lt", "ut", "wb") or g.chance(0.25) else g.dim()
        bb = batch
        if ks[1] == "zero":
            b = g.exact("zero", n, k, batch, "unit", 0)
        else:
            b = g.matrix(ks[1], n, k, bb, g.pick(["any", "unit"]))
        inv = np.linalg.inv(a.val)
        ref = mm(inv, b.val)
        tol = tolerance(a) * scale_of(inv) * mm(np.ones((n, n)), b.mag)
        desc = f"{op}({a.desc}, {b.desc}) dtype={dt}"
        if op == "solve":
            f = lambda: B.solve(a.obj, b.obj)  # noqa
        else:
            lo = g.pick([True, False, None])
            desc += f" lower_a={lo}"
            kw = {} if lo is None else {"lower_a": lo}
            nm = g.pick(["trisolve", "triangular_solve"])
            f = lambda: getattr(B, nm)(a.obj, b.obj, **kw)  # noqa
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            res = ctx.call(op, f, desc, ks)
        if op == "trisolve" and res is not SKIP:
            # The user is told if the flag contradicts the type.
            told = any(issubclass(w.category, UserWarning) and not issubclass(w.category, ctx.dense_warning) for w in caught)
            ctx.event("flags", f"{ks[0]}|{lo}|{told}")
            if told != ((lo in (None, True)) != (ks[0] == "lt")):
                ctx.fail(f"trisolve({ks[0]}):FLAG", f"{desc}: {'warns' if told else 'does not warn'} about the flag")
        check(ctx, op, res, ref, tol, desc, ks, a, b)
    elif op == "cholsolve":
        if ks[0] == "kron":
            g.limit = 30
            n1, n2 = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            ls = [g.inv_matrix(g.pick(["lt", "diag", "ut"]), q, batch, 1, 1.0) for q in (n1, n2)]
            k1, k2 = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            rs = [g.matrix(g.pick(["dense", "const", "lr"]), q, k, batch, "unit") for q, k in ((n1, k1), (n2, k2))]
            ao = ctx.m.Kronecker(ls[0].obj, ls[1].obj)
            bo = ctx.m.Kronecker(rs[0].obj, rs[1].obj)
            from ..gen import kron2

            av, bv, bm = kron2(ls[0].val, ls[1].val), kron2(rs[0].val, rs[1].val), kron2(rs[0].mag, rs[1].mag)
            desc = f"cholesky_solve(Kronecker[{ls[0].desc},{ls[1].desc}], Kronecker[{rs[0].desc},{rs[1].desc}])"
            inv = np.linalg.inv(mm(av, mT(av)))
            c = (ls[0].cond * ls[1].cond) ** 2
            eps = EPS["f4"] if dt == "f4" else EPS["f8"]
            tol = 500 * eps * c * scale_of(inv) * mm(np.ones(inv.shape[-2:]), bm)
            inner = "".join(x.desc for x in (*ls, *rs)).count("Kronecker")
            res = ctx.call(op, lambda: B.cholesky_solve(ao, bo), desc, ks, nkron=inner)
            check(ctx, op, res, mm(inv, bv), tol, desc, ks, *ls, *rs)
            return
        a = g.inv_matrix(ks[0], n, batch)
        k = n if ks[1] in ("diag", "lt", "ut", "wb") else g.dim()
        if ks[1] == "zero":
            b = g.exact("zero", n, k, batch, "unit", 0)
        else:
            b = g.matrix(ks[1], n, k, batch, "unit")
        inv = np.linalg.inv(mm(a.val, mT(a.val)))
        tol = tolerance(a) * a.cond * scale_of(inv) * mm(np.ones((n, n)), b.mag)
        desc = f"cholesky_solve({a.desc}, {b.desc}) dtype={dt}"
        f = B.cholesky_solve if g.chance(0.5) else B.cholsolve
        res = ctx.call(op, lambda: f(a.obj, b.obj), desc, ks)
        check(ctx, op, res, mm(inv, b.val), tol, desc, ks, a, b)
    else:
        a = (g.pd_matrix if op == "pd_schur" else g.inv_matrix)("wb", n, batch)
        desc = f"{op}({a.desc}) dtype={dt}"
        ref = a.info["schur"]
        f = getattr(B, op)
        res = ctx.call(op, lambda: f(a.obj), desc, ("wb",))
        d, left, right, mid = a.parts
        mag = mm(mT(right.mag), np.abs(np.linalg.inv(d.val)), left.mag)
        if mid:
            mag = mag + scale_of(np.linalg.inv(mid.val)) * mid.cond
        else:
            mag = mag + 1
        tol = 500 * (EPS["f4"] if dt == "f4" else EPS["f8"]) * mag
        check(ctx, op, res, ref, tol, desc, ("wb",), a)


def setup(ctx):
    # LAB adds this much to the diagonal before every Cholesky decomposition.
    ctx.B.epsilon = 0.0
    ctx.dense_warning = sys.modules["matrix.util"].ToDenseWarning


PROBES = {n: getattr(probes, n) for n in ["solve_zero_batch", "pd_inv_of_inverse"]}
