"""Random generation of invertible and positive-(semi)definite operands.

Each operand carries `cond`: a bound on how much a backward-stable algorithm may amplify
rounding (the product of the condition numbers of everything that gets inverted)."""

import numpy as np

from .gen import Gen, Operand, diag_embed, kron2, mm, mT


class POperand(Operand):
    __slots__ = ("cond", "info")

    def __init__(self, *a, cond=1.0, info=None, **k):
        super().__init__(*a, **k)
        self.cond = cond
        self.info = info or {}


def cond(a):
    c = np.linalg.cond(a)
    return float(np.max(c)) if np.all(np.isfinite(c)) else np.inf


class GenPD(Gen):
    """`limit` bounds the condition numbers."""

    limit = 200.0

    def scale(self):
        if self.dtype == "f4":
            return float(self.pick([1.0, 1.0, 10.0, 0.1]))
        return float(self.pick([1.0, 1e-3, 1e3, 1e-8, 1e8], p=[0.7, 0.1, 0.1, 0.05, 0.05]))

    def orth(self, shape):
        q, _ = np.linalg.qr(self.rng.standard_normal(shape))
        return q

    def lim(self):
        return 30.0 if self.dtype == "f4" else self.limit

    # -- invertible ------------------------------------------------------------------
    def inv_matrix(self, kind, n, batch=(), nest=0, scale=None):
        for _ in range(200):
            s = self.scale() if scale is None else scale
            x = getattr(self, "_inv_" + kind)(n, tuple(batch), nest, s)
            if x is not None and x.cond < self.lim() ** 3:
                return x
        raise RuntimeError(f"could not generate an invertible {kind}")

    def _inv_arr(self, n, b, s):
        sv = self.rng.uniform(0.5, 2.0, size=b + (n,)) * s
        a = mm(self.orth(b + (n, n)), diag_embed(sv), self.orth(b + (n, n)))
        if self.chance(0.15):
            a = np.round(a / s * 2) / 2 * s
        a = self.layout(a)
        c = cond(np.asarray(a, float))
        return (a, c) if c < self.lim() else (None, None)

    def _inv_dense(self, n, batch, nest, s, wrap=True):
        b = self.sub_batch(batch)
        a, c = self._inv_arr(n, b, s)
        if a is None:
            return None
        v, g = self.wrap(a)
        return POperand(
            self.m.Dense(a) if wrap else a, v, g, f"{'Dense' if wrap else 'np'}{b + (n, n)}",
            "dense" if wrap else "np", [a], self.dtype, cond=c,
        )

    def _inv_np(self, n, batch, nest, s):
        return self._inv_dense(n, batch, nest, s, wrap=False)

    def _inv_diag(self, n, batch, nest, s, pos=False):
        b = self.sub_batch(batch)
        d = self.rng.uniform(0.5, 2.0, size=b + (n,)) * s
        if not pos:
            d = d * self.rng.choice([-1, 1], size=b + (n,))
        a = self.layout(d)
        v = diag_embed(self.wrap(a)[0])
        return POperand(
            self.m.Diagonal(a), v, np.abs(v), f"Diagonal{b + (n,)}", "diag", [a], self.dtype, cond=4.0
        )

    def _inv_tri(self, n, batch, s, lower, pos=False):
        b = self.sub_batch(batch)
        a = self.rng.standard_normal(b + (n, n)) * (0.5 / max(1.0, n**0.5))
        a = np.tril(a, -1) if lower else np.triu(a, 1)
        d = self.rng.uniform(0.6, 1.8, size=b + (n,))
        if not pos:
            d = d * self.rng.choice([-1, 1], size=b + (n,))
        a = self.layout((a + diag_embed(d)) * s)
        v, g = self.wrap(a)
        c = cond(v)
        if c > self.lim():
            return None
        name = "LowerTriangular" if lower else "UpperTriangular"
        return POperand(
            getattr(self.m, name)(a), v, g, f"{name}{b + (n, n)}", "lt" if lower else "ut", [a],
            self.dtype, cond=c,
        )

    def _inv_lt(self, n, batch, nest, s):
        return self._inv_tri(n, batch, s, True)

    def _inv_ut(self, n, batch, nest, s):
        return self._inv_tri(n, batch, s, False)

    def _inv_wb(self, n, batch, nest, s, pd=False):
        b = self.sub_batch(batch)
        bs = [self.sub_batch(b) for _ in range(4)]
        bs[self.rng.integers(4)] = b
        d = self._inv_diag(n, bs[0], nest + 1, s, pos=pd)
        r = int(self.pick([1, 2, 3, n, n + 1], p=[0.4, 0.25, 0.15, 0.15, 0.05]))
        f = s**0.5

        def fac(i):
            k = self.pick(["np", "dense", "dense", "struct"])
            bb = self.sub_batch(bs[i])
            if k == "struct" and r == n and nest < 2:
                return self.inv_matrix(self.pick(["diag", "dense"]), n, bs[i], nest + 1, f)
            if k == "struct":
                x = self.matrix("const", n, r, bs[i], "unit")
                return x if s == 1.0 else None
            a = self.layout(self.rng.standard_normal(bb + (n, r)) * f)
            v, g = self.wrap(a)
            return POperand(
                a if k == "np" else self.m.Dense(a), v, g, f"{k}{bb + (n, r)}", k, [a], self.dtype
            )

        left = fac(1)
        same = pd or self.chance(0.5)
        right = left if same else fac(2)
        if left is None or right is None:
            return None
        mid = None
        if self.chance(0.7):
            mk = self.pick(["dense", "diag", "dense", "np", "kron"])
            if pd:
                mid = self.pd_matrix(mk, r, bs[3], nest + 2, 1.0)
            else:
                mid = self.inv_matrix(mk, r, bs[3], nest + 2, 1.0)
        mv = mid.val if mid else np.eye(r)
        mg = mid.mag if mid else np.eye(r)
        v = d.val + mm(left.val, mv, mT(right.val))
        g = d.mag + mm(left.mag, mg, mT(right.mag))
        kw = {}
        if not same:
            kw["right"] = right.obj
        elif self.chance(0.3):
            kw["right"] = left.obj
        if mid:
            kw["middle"] = mid.obj
        sch = np.linalg.inv(mv) + mm(mT(right.val), np.linalg.inv(d.val), left.val)
        ca, cs, cm = cond(v), cond(sch), cond(mv)
        if not (ca < self.lim() * 3 and cs < self.lim() * 3 and cm < self.lim() * 3):
            return None
        raws = d.raws + left.raws + (right.raws if not same else []) + (mid.raws if mid else [])
        return POperand(
            self.m.Woodbury(d.obj, self.m.LowRank(left.obj, **kw)), v, g,
            f"Woodbury[{d.desc}+LowRank[{left.desc}|{mid.desc if mid else 'I'}|{'same' if same else right.desc}]]",
            "wb", raws, self.dtype, parts=(d, left, right, mid), cond=4 * ca * cs * cm,
            info={"schur": sch},
        )

    def _inv_kron(self, n, batch, nest, s, pd=False):
        b = self.sub_batch(batch)
        n1, n2 = self.split(n)
        f = [self.sub_batch(b), self.sub_batch(b)]
        f[self.rng.integers(2)] = b
        if pd:
            kinds = ["dense", "dense", "diag", "wb", "kron"] if nest < 2 else ["dense", "diag"]
            xs = [self.pd_matrix(self.pick(kinds), k, q, nest + 1, s**0.5) for k, q in zip((n1, n2), f)]
        else:
            kinds = ["dense", "dense", "diag", "wb", "kron"] if nest < 2 else ["dense", "diag"]
            xs = [self.inv_matrix(self.pick(kinds), k, q, nest + 1, s**0.5) for k, q in zip((n1, n2), f)]
        l, r = xs
        return POperand(
            self.m.Kronecker(l.obj, r.obj), kron2(l.val, r.val), kron2(l.mag, r.mag),
            f"Kronecker[{l.desc}x{r.desc}]", "kron", l.raws + r.raws, self.dtype, parts=(l, r),
            cond=l.cond * r.cond,
        )

    # -- positive definite -----------------------------------------------------------
    def pd_matrix(self, kind, n, batch=(), nest=0, scale=None):
        for _ in range(200):
            s = self.scale() if scale is None else scale
            b = tuple(batch)
            if kind in ("dense", "np"):
                x = self._pd_dense(n, b, s, kind == "dense")
            elif kind == "diag":
                x = self._inv_diag(n, b, nest, s, pos=True)
            elif kind == "wb":
                x = self._inv_wb(n, b, nest, s, pd=True)
            elif kind == "lr":
                x = self._pd_lr(n, b, nest, s)
            elif kind == "const":
                x = self._pd_const(n, b, s)
            else:
                x = self._inv_kron(n, b, nest, s, pd=True)
            if x is not None and x.cond < self.lim() ** 3:
                return x
        raise RuntimeError(f"could not generate a positive-definite {kind}")

    def _pd_dense(self, n, batch, s, wrap):
        b = self.sub_batch(batch)
        q = self.orth(b + (n, n))
        a = mm(q, diag_embed(self.rng.uniform(0.4, 2.5, size=b + (n,)) * s), mT(q))
        a = (a + mT(a)) / 2
        a = self.layout(a)
        v, g = self.wrap(a)
        return POperand(
            self.m.Dense(a) if wrap else a, v, g, f"{'PD' if wrap else 'npPD'}{b + (n, n)}",
            "dense" if wrap else "np", [a], self.dtype, cond=7.0,
        )

    def _pd_lr(self, n, batch, nest, s):
        """A low-rank matrix of full rank."""
        b = self.sub_batch(batch)
        bs = [self.sub_batch(b), self.sub_batch(b)]
        bs[self.rng.integers(2)] = b
        left = self.inv_matrix(self.pick(["np", "dense", "diag", "lt"]), n, bs[0], nest + 1, s**0.5)
        mid = self.pd_matrix(self.pick(["dense", "diag", "np"]), n, bs[1], nest + 1, 1.0) if self.chance(0.6) else None
        kw = {"middle": mid.obj} if mid else {}
        if self.chance(0.3):
            kw["right"] = left.obj
        mv, mg = (mid.val, mid.mag) if mid else (np.eye(n), np.eye(n))
        v = mm(left.val, mv, mT(left.val))
        c = cond(v) * left.cond * (mid.cond if mid else 1.0)
        if not cond(v) < self.lim() * 3:
            return None
        return POperand(
            self.m.LowRank(left.obj, **kw), v, mm(left.mag, mg, mT(left.mag)),
            f"LowRank[{left.desc}|{mid.desc if mid else 'I'}|same]", "lr", left.raws + (mid.raws if mid else []),
            self.dtype, parts=(left, left, mid), cond=c,
        )

    _inv_lr = _pd_lr

    def _pd_const(self, n, batch, s):
        """A positive 1x1 constant (larger constants are singular)."""
        if n != 1:
            return self._pd_dense(n, batch, s, True)
        b = self.sub_batch(batch)
        a = self.layout(self.rng.uniform(0.5, 2.0, size=b) * s)
        v = np.asarray(a, float)[..., None, None]
        return POperand(self.m.Constant(a, 1, 1), v, v, f"Constant{b + (1, 1)}", "const", [a], self.dtype, cond=1.0)

    def psd_matrix(self, kind, n, batch=()):
        """Positive semi-definite, of low rank."""
        b = self.sub_batch(tuple(batch))
        if kind == "zero":
            return POperand(*_fields(self.matrix("zero", n, n, b)))
        if kind == "const":
            return POperand(*_fields(self.matrix("const", n, n, b, "nonneg")))
        r = int(self.rng.integers(1, 4))
        bs = [self.sub_batch(b), self.sub_batch(b)]
        bs[self.rng.integers(2)] = b
        left = self.factor(n, r, bs[0], "any", 1) if self.chance(0.5) else self.matrix(
            self.pick(["np", "dense"]), n, r, bs[0]
        )
        mid = self.pd_matrix(self.pick(["dense", "diag", "np"]), r, bs[1], 1, 1.0) if self.chance(0.6) else None
        kw = {}
        if mid:
            kw["middle"] = mid.obj
        if self.chance(0.3):
            kw["right"] = left.obj
        mv = mid.val if mid else np.eye(r)
        mg = mid.mag if mid else np.eye(r)
        return POperand(
            self.m.LowRank(left.obj, **kw), mm(left.val, mv, mT(left.val)), mm(left.mag, mg, mT(left.mag)),
            f"LowRank[{left.desc}|{mid.desc if mid else 'I'}|same]", "lr",
            left.raws + (mid.raws if mid else []), self.dtype, parts=(left, left, mid), cond=1.0,
        )


def _fields(x):
    return (x.obj, x.val, x.mag, x.desc, x.kind, x.raws, x.dtype, x.parts)
