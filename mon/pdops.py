"""A catalogue of operations on invertible and positive-definite operands, with references
computed from the dense matrices by NumPy. `tol` is an absolute allowance per entry."""

import numpy as np

from .common import EPS
from .gen import MATRIX_KINDS, SQUARE_ONLY, mm, mT


class PInst:
    __slots__ = ("name", "args", "run", "ref", "tol", "matrix")

    def __init__(self, name, args, run, ref, tol, matrix=True):
        self.name = name
        self.args = args
        self.run = run
        self.ref = ref  # None: nothing to compare with
        self.tol = tol
        self.matrix = matrix

    def call(self, objs=None):
        return self.run(*(objs if objs is not None else [x.obj for x in self.args]))

    @property
    def kinds(self):
        return tuple(x.kind for x in self.args)

    @property
    def desc(self):
        return f"{self.name}({', '.join(x.desc for x in self.args)})"


def big(x):
    return np.max(np.abs(x), axis=(-1, -2), keepdims=True)


def pd_pool(g, num=3, n=None, batch=None, kinds=("dense", "diag", "wb", "kron")):
    """Positive-definite operands of one size, and outer matrices that fit."""
    n = n or (int(g.rng.integers(8, 21)) if g.chance(0.03) else int(g.rng.integers(1, 7)))
    batch = g.batch(2) if batch is None else batch
    pds = [g.pd_matrix(g.pick(kinds), n, batch, 0, 1.0) for _ in range(num)]
    outs = []
    for _ in range(3):
        k = g.pick(MATRIX_KINDS + ["np"])
        c = n if k in SQUARE_ONLY else g.pick([n, int(g.rng.integers(1, 5))])
        outs.append(g.exact(k, n, c, batch, "unit", 0) if k == "zero" else g.matrix(k, n, c, batch, "unit"))
    return pds, outs


OPS = ["cholesky", "cholesky", "root", "inv", "pd_inv", "logdet", "solve", "iqf", "iqf_diag", "ratio", "trace", "dense", "sample",
       "schur", "pd_schur", "invneg", "invT"]


def pd_instance(B, m, g, pds, outs, name=None):
    rng = g.rng
    name = name or g.pick(OPS)
    a = g.pick(pds)
    eps = EPS["f4"] if a.dtype == "f4" else EPS["f8"]
    n = a.val.shape[-1]
    base = 2000 * eps * a.cond
    inv = np.linalg.inv(a.val)
    if name == "cholesky":
        return PInst(name, [a], lambda x: B.cholesky(x), None, None)
    if name == "root":
        return PInst(name, [a], lambda x: B.root(x), None, None)
    if name in ("inv", "pd_inv"):
        f = getattr(B, name)
        return PInst(name, [a], lambda x: f(x), inv, base * big(inv))
    if name == "invneg":
        return PInst(name, [a], lambda x: B.inv(-x), -inv, base * big(inv))
    if name == "invT":
        return PInst(name, [a], lambda x: B.inv(x.T), mT(inv), base * big(inv))
    if name == "logdet":
        ref = np.linalg.slogdet(a.val)[1]
        return PInst(name, [a], lambda x: B.logdet(x), ref, base * (n + np.abs(ref)), matrix=False)
    if name == "dense":
        return PInst(name, [a], lambda x: B.dense(x), a.val, base * a.mag)
    if name == "trace":
        r = np.einsum("...ii->...", a.val)
        return PInst(name, [a], lambda x: B.trace(x), r, base * np.einsum("...ii->...", a.mag), matrix=False)
    if name == "ratio":
        b = g.pick(pds)
        try:
            np.broadcast_shapes(a.val.shape[:-2], b.val.shape[:-2])
        except ValueError:
            return None
        ib = np.linalg.inv(b.val)
        ref = np.einsum("...ij,...ji->...", ib, a.val)
        mag = np.max(np.abs(ib), axis=(-1, -2)) * np.sum(a.mag, axis=(-1, -2))
        return PInst(name, [a, b], lambda x, y: B.ratio(x, y), ref, 2000 * eps * a.cond * b.cond * mag, matrix=False)
    if name in ("schur", "pd_schur"):
        wbs = [x for x in pds if type(x.obj).__name__ == "Woodbury"]
        if not wbs:
            return None
        a = g.pick(wbs)
        f = getattr(B, name)
        ref = a.info.get("schur")
        return PInst(name, [a], lambda x: f(x), ref, None if ref is None else 2000 * eps * a.cond * big(ref))
    if name == "sample":
        b = a.val.shape[:-2]

        def run(x):
            state, s = B.sample(B.create_random_state(B.dtype_float(x), seed=5), x, 3)
            return s

        return PInst(name, [a], run, None, None)
    b = g.pick(outs)
    try:
        np.broadcast_shapes(*(x.val.shape[:-2] for x in [a] + outs))
    except ValueError:
        return None
    if np.broadcast_shapes(a.val.shape[:-2], b.val.shape[:-2]) != b.val.shape[:-2] and b.kind == "zero":
        return None
    if name == "solve":
        ref = mm(inv, b.val)
        return PInst(name, [a, b], lambda x, y: B.solve(x, y), ref, base * big(inv) * mm(np.ones((n, n)), b.mag))
    c = b
    if name == "iqf_diag" or g.chance(0.5):
        cs = [x for x in outs if x.val.shape[-1] == b.val.shape[-1] or name == "iqf"]
        c = g.pick(cs)
    bt, ct = np.sum(b.mag, -2), np.sum(c.mag, -2)
    f = getattr(B, name)
    fn = (lambda x, y: f(x, y)) if c is b else (lambda x, y, z: f(x, y, z))
    args = [a, b] if c is b else [a, b, c]
    if name == "iqf":
        return PInst(name, args, fn, mm(mT(b.val), inv, c.val), base * big(inv) * bt[..., :, None] * ct[..., None, :])
    ref = np.einsum("...ij,...ik,...kj->...j", b.val, inv, c.val)
    return PInst(name, args, fn, ref, base * big(inv)[..., 0] * bt * ct, matrix=False)


# -- general invertible operands, with operands derived from operands that have a history ----------
INV_KINDS = ["wb", "wb", "kron", "diag", "dense"]


def inv_pool(g, num=3, n=None, batch=None, kinds=INV_KINDS):
    n = n or (int(g.rng.integers(8, 17)) if g.chance(0.03) else int(g.rng.integers(1, 6)))
    batch = g.batch(2) if batch is None else batch
    xs = [g.inv_matrix(g.pick(kinds), n, batch, 0, 1.0) for _ in range(num)]
    outs = [g.matrix(g.pick(["np", "dense", "diag", "lr"]), n, n, batch, "unit") for _ in range(2)]
    return xs, outs


def derive(B, m, g, x, pd=False):
    """An operation whose result is invertible (positive definite) again when its operand is:
    (name, run, value)."""
    v = x.val
    b = v.shape[:-2]
    opts = ["T", "neg", "scale", "rscale", "div", "bbt", "cast", "shift"]
    if pd:
        opts.remove("neg")
        opts.append("mulself")
    if b:
        opts += ["take", "take", "pick"]
    name = g.pick(opts)
    if name == "T":
        return name, (lambda o: o.T), mT(v), None
    if name == "neg":
        return name, (lambda o: -o), -v, None
    if name in ("scale", "rscale", "div"):
        c = g.pick([2.0, 0.5, 1.5 if pd else -1.5, 3, np.float64(0.25)])
        if name == "div":
            return name, (lambda o: o / c), v / c, None
        return name, ((lambda o: o * c) if name == "scale" else (lambda o: c * o)), v * c, None
    if name == "mulself":
        # The element-wise square of a positive-definite matrix is positive definite.
        return name, (lambda o: o * o), v * v, None
    if name == "cast":
        return name, (lambda o: B.cast(np.float64, o)), v, None
    if name == "bbt":
        tgt = ((2,) if g.chance(0.5) and len(b) < 3 else ()) + tuple(int(g.pick([1, 3])) if d == 1 else d for d in b)
        return name, (lambda o: B.broadcast_batch_to(o, *tgt)), np.broadcast_to(v, tgt + v.shape[-2:]), None
    if name == "shift":
        # Add a diagonal of the same sign structure: stays invertible often enough.
        d = g._inv_diag(v.shape[-1], b, 0, 1.0, pos=True)
        return name, (lambda o: o + d.obj), v + d.val, None
    ax = int(g.rng.integers(-v.ndim, -2))
    L = v.shape[ax]
    if name == "take":
        idx = [int(i) for i in g.rng.integers(0, L, size=g.rng.integers(1, L + 2))]
        return name, (lambda o: B.take(o, idx, axis=ax)), np.take(v, idx, axis=ax), None
    i = int(g.rng.integers(L))
    return name, (lambda o: B.take(o, [i], axis=ax)), np.take(v, [i], axis=ax), None


def inv_instance(B, m, g, xs, outs):
    """An operation on a general invertible operand: (name, args, run, ref, tol)."""
    a = g.pick(xs)
    eps = EPS["f4"] if a.dtype == "f4" else EPS["f8"]
    inv = np.linalg.inv(a.val)
    base = 2000 * eps * a.cond
    n = a.val.shape[-1]
    name = g.pick(["inv", "inv", "solve", "solve", "rsolve", "dense", "matmul", "schur", "invT"])
    if name == "inv":
        return PInst(name, [a], lambda x: B.inv(x), inv, base * big(inv))
    if name == "invT":
        return PInst(name, [a], lambda x: B.inv(x.T), mT(inv), base * big(inv))
    if name == "dense":
        return PInst(name, [a], lambda x: B.dense(x), a.val, base * a.mag)
    if name == "schur":
        ws = [x for x in xs if type(x.obj).__name__ == "Woodbury"]
        if not ws:
            return None
        a = g.pick(ws)
        return PInst(name, [a], lambda x: B.schur(x), None, None)
    b = g.pick(outs)
    try:
        np.broadcast_shapes(a.val.shape[:-2], b.val.shape[:-2])
    except ValueError:
        return None
    if name == "solve":
        return PInst(name, [a, b], lambda x, y: B.solve(x, y), mm(inv, b.val), base * big(inv) * mm(np.ones((n, n)), b.mag))
    if name == "rsolve":
        ref = mm(mT(inv), b.val)
        return PInst(name, [a, b], lambda x, y: B.solve(x.T, y), ref, base * big(inv) * mm(np.ones((n, n)), b.mag))
    return PInst("matmul", [a, b], lambda x, y: B.matmul(x, y), mm(a.val, b.val), base * mm(a.mag, b.mag))
