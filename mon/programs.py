"""Small programs: one to three operations on shared operands, the later ones on earlier
results. A program can be run on the operands as generated, or on operands of the same
structure around other numbers; `refs` says what every step denotes for those numbers."""

import numpy as np

from .common import EPS
from .denote import denote
from .gen import Gen, MATRIX_KINDS, Operand, mm, mT
from .genpd import GenPD
from .jaxops import leaves, rebuild
from .ops import instance, pool
from .pdops import big, pd_instance, pd_pool

INEXACT = 3e4


def pd_ref(name, vals, cond):
    """Value and magnitude of the rounding for operations on positive-definite matrices."""
    a = vals[0]
    inv = np.linalg.inv(a)
    if name in ("inv", "pd_inv"):
        return inv, cond * big(inv)
    if name == "invneg":
        return -inv, cond * big(inv)
    if name == "invT":
        return mT(inv), cond * big(inv)
    if name == "logdet":
        r = np.linalg.slogdet(a)[1]
        return r, cond * (a.shape[-1] + np.abs(r))
    if name == "dense":
        return a, np.abs(a)
    if name == "trace":
        return np.trace(a, axis1=-2, axis2=-1), np.trace(np.abs(a), axis1=-2, axis2=-1)
    if name == "ratio":
        ib = np.linalg.inv(vals[1])
        m = np.max(np.abs(ib), axis=(-1, -2)) * np.sum(np.abs(a), axis=(-1, -2))
        return np.einsum("...ij,...ji->...", ib, a), cond * m
    if name == "cholesky":
        return np.linalg.cholesky(a), cond * big(a) ** 0.5
    if name not in ("solve", "iqf", "iqf_diag"):
        return None
    b = vals[1]
    if name == "solve":
        return mm(inv, b), cond * big(inv) * mm(np.ones_like(a), np.abs(b))
    c = vals[2] if len(vals) > 2 else b
    bt, ct = np.sum(np.abs(b), -2), np.sum(np.abs(c), -2)
    if name == "iqf":
        return mm(mT(b), inv, c), cond * big(inv) * bt[..., :, None] * ct[..., None, :]
    if name == "iqf_diag":
        return np.einsum("...ij,...ik,...kj->...j", b, inv, c), cond * big(inv)[..., 0] * bt * ct
    return None


PD_NAMES = ["cholesky", "inv", "pd_inv", "logdet", "solve", "solve", "iqf", "iqf", "iqf_diag", "iqf_diag", "ratio", "trace", "invneg", "invT", "schur"]


class Program:
    """`bases` are operands; a step is an instance whose operands are bases or results."""

    def __init__(self, ctx, rng, how, dtype, steps, prof="unit", kinds=MATRIX_KINDS, allow=None):
        self.ctx, self.B, self.m, self.rng = ctx, ctx.B, ctx.m, rng
        self.pd = how == "pd"
        self.dtype = dtype
        self.steps, self.out = [], []
        B, m = self.B, self.m
        if self.pd:
            g = GenPD(rng, m, dtype)
            pds, outs = pd_pool(g, n=int(rng.integers(1, 6)))
            for _ in range(40):
                if len(self.steps) >= steps:
                    break
                inst = pd_instance(B, m, g, pds, outs, g.pick(PD_NAMES))
                if inst is not None and (allow is None or allow(inst)):
                    self.steps.append(inst)
            self.cond = float(np.prod([x.cond for x in pds]))
            self.posdef = {id(x) for x in pds}
        else:
            g = Gen(rng, m, dtype)
            items = pool(g, 4, prof=prof, kinds=kinds)
            for _ in range(40):
                if len(self.steps) >= steps:
                    break
                inst = instance(B, g, items)
                if inst is None or (allow is not None and not allow(inst)):
                    continue
                if inst.name == "cast":
                    import jax.numpy as jnp

                    t = jnp.float32 if dtype == "f4" else jnp.float64
                    inst.run = lambda x: B.cast(t, x)  # noqa
                val = inst.value()
                self.steps.append(inst)
                if inst.matrix and val.ndim >= 2 and val.size < 200 and inst.name not in ("ones", "zeros"):
                    # Wrapped once it has run.
                    r = Operand(None, val, inst.magnitude(), f"<{inst.name}{val.shape}>", "res", [], dtype)
                    inst_res = r
                    self.out.append((len(self.steps) - 1, r))
                    # Its type only matters for what may be broadcast.
                    try:
                        inst_res.obj = inst.call([x.obj for x in inst.args])
                    except Exception:
                        self.out.pop()
                        continue
                    if not isinstance(inst_res.obj, (m.AbstractMatrix, np.ndarray)) or "TiledBlocks" in type(inst_res.obj).__name__:
                        self.out.pop()
                        continue
                    items.extend([r, r])
        self.results = {id(r): i for i, r in self.out}
        self.bases = []
        for s in self.steps:
            for x in s.args:
                if id(x) not in self.results and all(x is not y for y in self.bases):
                    self.bases.append(x)
        seen = set()
        self.raws = []
        for x in self.bases:
            leaves(x.obj, self.raws, seen)
        self.keep = seen

    def free(self):
        """Positions of the arrays that may hold any numbers."""
        tied, pos = set(), []
        for x in self.bases:
            if self.pd and id(x) in self.posdef:
                tied |= {id(a) for a in leaves(x.obj)}
        at = 0
        seen = set()
        for x in self.bases:
            for a in leaves(x.obj, [], seen):
                if id(a) not in tied and not (self.pd and id(x) in self.posdef):
                    pos.append(at)
                at += 1
        return pos

    @property
    def desc(self):
        return "; ".join(f"{s.desc}" for s in self.steps)

    def kinds(self):
        return tuple(x.kind for x in self.bases)

    def build(self, raws, zero_dtype=None):
        """Operands around other numbers."""
        it, memo = iter(raws), {}
        return [rebuild(self.m, x.obj, it, memo, zero_dtype) for x in self.bases]

    def run(self, objs):
        env = {id(x): o for x, o in zip(self.bases, objs)}
        byres = {i: r for i, r in self.out}
        out = []
        for i, s in enumerate(self.steps):
            r = s.run(*[env[id(x)] for x in s.args])
            if i in byres:
                env[id(byres[i])] = r
            out.append(r)
        return out

    def refs(self, objs):
        """(value, tolerance) of every step, from what the operands denote. None if the
        operands are not in the domain (not positive definite any more, for instance)."""
        eps = EPS["f4"] if self.dtype == "f4" else EPS["f8"]
        env = {id(x): denote(o) for x, o in zip(self.bases, objs)}
        byres = {i: r for i, r in self.out}
        out = []
        for i, s in enumerate(self.steps):
            vs = [env[id(x)] for x in s.args]
            if self.pd:
                a = vs[0][0]
                c = self.cond
                for v, _ in vs[: 2 if s.name == "ratio" else 1]:
                    if not np.allclose(v, mT(v), rtol=1e-5) or np.min(np.linalg.eigvalsh(v)) <= 0:
                        return None
                    c *= float(np.max(np.linalg.cond(v)))
                if c * eps > 1e-7 if self.dtype != "f4" else c * eps > 1e-2:
                    return None
                r = pd_ref(s.name, [v for v, _ in vs], c)
                if s.name == "schur":
                    r = None
                out.append(None if r is None else (r[0], INEXACT * eps * r[1] + 1e-290))
            else:
                if s.name == "div" and np.any(np.abs(vs[1][0]) < 0.1):
                    return None
                val = s.ref(*[v for v, _ in vs])
                mag = s.mag(*[v for _, v in vs])
                out.append((val, INEXACT * eps * np.abs(mag) + 1e-290))
                if i in byres:
                    env[id(byres[i])] = (val, np.abs(mag))
        return out


def remap(raws, rng, strength=0.3):
    """Other numbers with the same pattern of equal numbers and zeros; keeps positive
    definiteness of symmetric matrices and of products of a factor with itself."""
    big_ = max([np.max(np.abs(r), initial=0.0) for r in raws] + [1e-300])
    s, c = rng.uniform(1.0, 1.4), rng.uniform(0.1, 0.1 + strength)
    return [(s * (r.astype(float) + c * r.astype(float) ** 3 / big_**2)).astype(r.dtype) for r in raws]


def direction(raws, rng):
    """A direction in which equal numbers stay equal, and zeros zero."""
    big_ = max([np.max(np.abs(r), initial=0.0) for r in raws] + [1e-300])
    big_ = max(big_, 1e-100)
    a, b = rng.uniform(-1, 1, size=2)
    return [a * r.astype(float) + b * r.astype(float) ** 3 / big_**2 for r in raws]
