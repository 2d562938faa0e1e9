"""Random generation of operands together with an independent dense reference.

Every generated operand carries `val` (the dense matrix it denotes, computed from the raw
arrays with plain NumPy, never with the library) and `mag` (the same expression evaluated
on absolute values: an entrywise bound on the size of the terms that were added up, so
that `eps * mag` bounds the rounding a correct implementation may commit)."""

import numpy as np

DT = {"f8": np.float64, "f4": np.float32, "i8": np.int64}


class Operand:
    __slots__ = ("obj", "val", "mag", "desc", "kind", "raws", "dtype", "parts", "rebuild")

    def __init__(self, obj, val, mag, desc, kind, raws, dtype, parts=()):
        self.obj = obj
        self.val = val
        self.mag = mag
        self.desc = desc
        self.kind = kind
        self.raws = raws
        self.dtype = dtype
        self.parts = parts

    def __repr__(self):
        return self.desc


MATRIX_KINDS = ["zero", "dense", "diag", "const", "lt", "ut", "lr", "wb", "kron", "tb"]
SQUARE_ONLY = {"diag", "lt", "ut", "wb"}


def mT(x):
    return np.swapaxes(x, -1, -2)


def mm(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = np.matmul(out, x)
    return out


def kron2(a, b):
    """Batched Kronecker product over the last two axes."""
    out = a[..., :, None, :, None] * b[..., None, :, None, :]
    s = out.shape
    return out.reshape(*s[:-4], s[-4] * s[-3], s[-2] * s[-1])


def diag_embed(v):
    out = np.zeros(v.shape + (v.shape[-1],), dtype=v.dtype)
    i = np.arange(v.shape[-1])
    out[..., i, i] = v
    return out


class Gen:
    def __init__(self, rng, matrix, dtype="f8", styles=None, layouts=True):
        self.rng = rng
        self.m = matrix
        self.dtype = dtype
        self.np_dtype = DT[dtype]
        self.styles = styles
        self.layouts = layouts
        self.max_nest = 2
        self.no_zero = False  # no zero matrices and no Python scalars among the parts

    # -- helpers ---------------------------------------------------------------------
    def chance(self, p):
        return self.rng.random() < p

    def pick(self, xs, p=None):
        return xs[self.rng.choice(len(xs), p=p)]

    def dim(self, hi=6):
        if hi >= 6 and self.rng.random() < 0.03:
            return int(self.rng.integers(8, 33) if self.rng.random() < 0.88 else self.rng.integers(33, 130))
        return int(self.pick([1, 2, 3, 4, 5, 6, 7], p=[0.16, 0.2, 0.24, 0.16, 0.1, 0.1, 0.04])) if hi >= 6 else int(
            self.rng.integers(1, hi + 1)
        )

    def batch(self, maxrank=3):
        r = self.pick([0, 1, 2, 3], p=[0.4, 0.35, 0.2, 0.05])
        r = min(r, maxrank)
        return tuple(int(self.pick([1, 2, 3, 5], p=[0.2, 0.4, 0.37, 0.03])) for _ in range(r))

    def sub_batch(self, target, p_full=0.5):
        """A batch shape that broadcasts to `target`."""
        if self.chance(p_full):
            return tuple(target)
        k = int(self.rng.integers(0, len(target) + 1))
        out = tuple(target[k:])
        return tuple(1 if self.chance(0.35) else d for d in out)

    def raw(self, shape, prof="any"):
        """Random raw array."""
        rng = self.rng
        style = self.pick(self.styles) if self.styles else self.pick(
            ["normal", "int", "sparse", "big", "small", "ones"],
            p=[0.55, 0.15, 0.14, 0.05, 0.05, 0.06],
        )
        if self.dtype == "i8":
            style = "int"
        if prof == "pos":
            a = rng.uniform(0.5, 2.0, size=shape)
            if self.dtype == "i8":
                a = rng.integers(1, 4, size=shape)
        elif prof == "unit":  # well-scaled, for conditioning-sensitive operations
            a = rng.standard_normal(shape)
        else:
            if style == "normal":
                a = rng.standard_normal(shape)
            elif style == "int":
                a = rng.integers(-3, 4, size=shape).astype(float)
            elif style == "sparse":
                a = rng.standard_normal(shape) * (rng.random(shape) < 0.5)
            elif style == "big":
                a = rng.standard_normal(shape) * 1e3
            elif style == "small":
                a = rng.standard_normal(shape) * 1e-3
            elif style == "huge":
                a = rng.standard_normal(shape) * 1e9
            elif style == "tiny":
                a = rng.standard_normal(shape) * 1e-9
            else:
                a = np.ones(shape)
            if prof == "nonneg":
                a = np.abs(a)
            elif prof == "nonzero":
                a = np.where(np.abs(a) < 0.1, 0.5, a)
        return self.layout(np.asarray(a))

    def layout(self, a):
        a = np.array(a, dtype=self.np_dtype)
        if self.layouts and a.ndim >= 2 and self.chance(0.3):
            how = self.rng.integers(0, 3)
            if how == 0:
                a = np.asfortranarray(a)
            elif how == 1:
                big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
                big[..., ::2] = a
                a = big[..., ::2]
            else:
                a = mT(np.ascontiguousarray(mT(a)))
        return a

    def wrap(self, a):
        """Promote raw array to float64 reference and its magnitude."""
        v = np.asarray(a, dtype=np.float64 if self.dtype != "i8" else np.float64)
        return v, np.abs(v)

    # -- matrices --------------------------------------------------------------------
    def matrix(self, kind, m, n, batch=(), prof="any", nest=0):
        if kind == "zero" and nest and self.no_zero:
            kind = "dense"
        f = getattr(self, "_" + kind)
        return f(m, n, tuple(batch), prof, nest)

    def _np(self, m, n, batch, prof, nest):
        b = self.sub_batch(batch)
        a = self.raw(b + (m, n), prof)
        v, g = self.wrap(a)
        return Operand(a, v, g, f"np{b + (m, n)}", "np", [a], self.dtype)

    def _zero(self, m, n, batch, prof, nest):
        b = self.sub_batch(batch)
        v = np.zeros(b + (m, n))
        return Operand(
            self.m.Zero(self.np_dtype, *b, m, n), v, v, f"Zero{b + (m, n)}", "zero", [], self.dtype
        )

    def _dense(self, m, n, batch, prof, nest):
        b = self.sub_batch(batch)
        if prof in ("any", "nonneg") and nest < 1 and self.chance(0.08):
            # `Dense` of a structured matrix.
            kinds = [k for k in MATRIX_KINDS if k != "dense" and (m == n or k not in SQUARE_ONLY)]
            x = self.matrix(self.pick(kinds), m, n, b, prof, nest + 1)
            return Operand(
                self.m.Dense(x.obj), x.val, x.mag, f"Dense({x.desc})", "dense", x.raws, self.dtype
            )
        a = self.raw(b + (m, n), prof)
        v, g = self.wrap(a)
        return Operand(self.m.Dense(a), v, g, f"Dense{b + (m, n)}", "dense", [a], self.dtype)

    def _diag(self, m, n, batch, prof, nest):
        assert m == n
        b = self.sub_batch(batch)
        a = self.raw(b + (n,), prof)
        v, _ = self.wrap(a)
        v = diag_embed(v)
        return Operand(
            self.m.Diagonal(a), v, np.abs(v), f"Diagonal{b + (n,)}", "diag", [a], self.dtype
        )

    def _const(self, m, n, batch, prof, nest):
        b = self.sub_batch(batch)
        how = self.rng.integers(0, 3)
        if b == () and how < 2:
            a = self.raw((), prof)
            c = a[()] if how == 0 else np.array(a)
            if how == 0 and self.dtype == "f8" and self.chance(0.5) and not self.no_zero:
                c = float(c)
            if how == 0 and self.dtype == "i8" and self.chance(0.5) and not self.no_zero:
                c = int(c)
            obj = self.m.Constant(c, m, n)
            raws = [c] if isinstance(c, np.ndarray) else []
            a = np.asarray(a)
        elif how == 2 and b != ():
            # Explicit batch shape, broadcast with that of the constant.
            a = self.raw(self.sub_batch(b, 0.3), prof)
            obj = self.m.Constant(a, *b, m, n)
            raws = [a]
        else:
            a = self.raw(b, prof)
            obj = self.m.Constant(a, m, n)
            raws = [a]
        v, _ = self.wrap(a)
        v = np.broadcast_to(v[..., None, None], b + (m, n)).copy()
        return Operand(obj, v, np.abs(v), f"Constant{b + (m, n)}", "const", raws, self.dtype)

    def _tri(self, lower, m, n, batch, prof, nest):
        assert m == n
        b = self.sub_batch(batch)
        a = self.raw(b + (n, n), prof)
        a = (np.tril if lower else np.triu)(np.array(a))
        if prof in ("unit", "pd", "posdiag"):
            i = np.arange(n)
            s = 1.0 if prof != "unit" else self.rng.choice([-1.0, 1.0], size=b + (n,))
            a[..., i, i] = s * self.rng.uniform(0.7, 2.0, size=b + (n,)).astype(a.dtype)
            a[...] = a * np.where(np.eye(n) > 0, 1, 0.5)
        a = self.layout(a)
        v, g = self.wrap(a)
        name = "LowerTriangular" if lower else "UpperTriangular"
        return Operand(
            getattr(self.m, name)(a), v, g, f"{name}{b + (n, n)}", "lt" if lower else "ut", [a], self.dtype
        )

    def _lt(self, m, n, batch, prof, nest):
        return self._tri(True, m, n, batch, prof, nest)

    def _ut(self, m, n, batch, prof, nest):
        return self._tri(False, m, n, batch, prof, nest)

    def factor(self, m, n, batch, prof, nest):
        """A factor of a composite matrix: numeric, dense, or structured."""
        r = self.rng.random()
        if r < 0.35:
            return self.matrix("np", m, n, batch, prof, nest)
        if r < 0.7 or nest >= self.max_nest:
            return self.matrix("dense", m, n, batch, prof, nest + 1)
        kinds = ["const", "zero", "lr", "kron"]
        if m == n:
            kinds += ["diag", "diag", "lt", "ut", "wb"]
        return self.matrix(self.pick(kinds), m, n, batch, prof, nest + 1)

    def _lr(self, m, n, batch, prof, nest, simple=False):
        b = self.sub_batch(batch)
        bl = self.sub_batch(b)
        # At least one factor carries the full batch shape.
        bs = [self.sub_batch(b) for _ in range(3)]
        bs[self.rng.integers(0, 3)] = b
        how = self.rng.random()
        r = int(self.rng.integers(1, 4))
        q = r
        have_mid = self.chance(0.6)
        same_right = m == n and self.chance(0.35)
        if have_mid and not same_right and self.chance(0.2):
            q = int(self.rng.integers(1, 4))
        if self.chance(0.12):
            r = q = m
        fac = self.factor if not simple else (
            lambda *a: self.matrix(self.pick(["np", "dense"]), *a)
        )

        def mk(i, rows, cols):
            x = fac(rows, cols, bs[i], prof, nest)
            return x

        left = mk(0, m, r)
        right = None if same_right else mk(1, n, q)
        mid = mk(2, r, q) if have_mid else None
        kw = {}
        if right is not None:
            kw["right"] = right.obj
        elif self.chance(0.3):
            kw["right"] = left.obj  # explicitly the same object
        if mid is not None:
            kw["middle"] = mid.obj
        rr = right if right is not None else left
        if mid is not None:
            v = mm(left.val, mid.val, mT(rr.val))
            g = mm(left.mag, mid.mag, mT(rr.mag))
        else:
            v = mm(left.val, mT(rr.val))
            g = mm(left.mag, mT(rr.mag))
        raws = left.raws + (right.raws if right else []) + (mid.raws if mid else [])
        return Operand(
            self.m.LowRank(left.obj, **kw),
            v,
            g,
            f"LowRank[{left.desc}|{mid.desc if mid else 'I'}|{right.desc if right else 'same'}]",
            "lr",
            raws,
            self.dtype,
            parts=(left, right, mid),
        )

    def _wb(self, m, n, batch, prof, nest):
        assert m == n
        b = self.sub_batch(batch)
        d = self.matrix("diag", n, n, b, prof, nest + 1)
        lr = self.matrix("lr", n, n, b, prof, nest + 1)
        return Operand(
            self.m.Woodbury(d.obj, lr.obj),
            d.val + lr.val,
            d.mag + lr.mag,
            f"Woodbury[{d.desc}+{lr.desc}]",
            "wb",
            d.raws + lr.raws,
            self.dtype,
            parts=(d, lr),
        )

    def split(self, k):
        divs = [d for d in range(1, k + 1) if k % d == 0]
        d = int(self.pick(divs))
        return d, k // d

    def _kron(self, m, n, batch, prof, nest):
        b = self.sub_batch(batch)
        if m == n and self.chance(0.6):
            m1, m2 = self.split(m)
            n1, n2 = m1, m2
        else:
            m1, m2 = self.split(m)
            n1, n2 = self.split(n)
        f = [self.sub_batch(b), self.sub_batch(b)]
        f[self.rng.integers(0, 2)] = b
        left = self.kron_factor(m1, n1, f[0], prof, nest)
        right = self.kron_factor(m2, n2, f[1], prof, nest)
        return Operand(
            self.m.Kronecker(left.obj, right.obj),
            kron2(left.val, right.val),
            kron2(left.mag, right.mag),
            f"Kronecker[{left.desc}x{right.desc}]",
            "kron",
            left.raws + right.raws,
            self.dtype,
            parts=(left, right),
        )

    def kron_factor(self, m, n, batch, prof, nest):
        if nest >= self.max_nest or self.chance(0.6):
            return self.matrix("dense", m, n, batch, prof, nest + 1)
        kinds = ["const", "zero", "lr", "dense", "kron"]
        if m == n:
            kinds += ["diag", "diag", "lt", "ut", "wb"]
        return self.matrix(self.pick(kinds), m, n, batch, prof, nest + 1)

    def partition(self, total):
        """Split `total` as a sum of `size * rep`."""
        out = []
        left = total
        while left > 0:
            size = int(self.rng.integers(1, left + 1))
            rep = int(self.rng.integers(1, left // size + 1))
            out.append((size, rep))
            left -= size * rep
        return out

    def _tb(self, m, n, batch, prof, nest, axis=None):
        b = self.sub_batch(batch)
        if axis is None:
            opts = [-2, -1]
            if len(b) and self.chance(0.35):
                opts = [-3 - i for i in range(len(b))]
            axis = int(self.pick(opts))
        rank = len(b) + 2
        full = b + (m, n)
        parts = []
        for size, rep in self.partition(full[axis]):
            shp = list(full)
            shp[axis] = size
            # Batch broadcasting among blocks (not along the tiled axis).
            bb = list(shp[:-2])
            if axis < -2:
                for i in range(len(bb)):
                    if i != rank + axis and self.chance(0.2):
                        bb[i] = 1
            else:
                bb = list(self.sub_batch(tuple(bb), 0.7))
            kinds = ["np", "dense", "const", "zero"]
            if shp[-1] == shp[-2]:
                kinds += ["diag", "lt", "ut"]
            if nest < self.max_nest:
                kinds += ["lr", "kron"]
            k = self.pick(kinds)
            x = self.exact(k, shp[-2], shp[-1], tuple(bb), prof, nest + 1)
            parts.append((x, rep))
        # Make sure the batch shape is realised and that the resulting rank is `rank`.
        which = int(self.rng.integers(len(parts)))
        if axis >= -2:
            x, rep = parts[which]
            if x.val.shape[:-2] != b:
                y = self.exact("dense", x.val.shape[-2], x.val.shape[-1], b, prof, nest + 1)
                parts[which] = (y, rep)
        else:
            shp = list(full)
            shp[axis] = parts[which][0].val.shape[axis]
            y = self.exact("dense", m, n, tuple(shp[:-2]), prof, nest + 1)
            parts[which] = (y, parts[which][1])

        def build(attr):
            xs = []
            for x, rep in parts:
                a = getattr(x, attr)
                a = a.reshape((1,) * (rank - a.ndim) + a.shape)
                tgt = list(full)
                tgt[axis] = a.shape[axis]
                a = np.broadcast_to(a, tgt)
                reps = [1] * rank
                reps[axis] = rep
                xs.append(np.tile(a, reps))
            return np.concatenate(xs, axis=axis)

        ax = axis if self.chance(0.7) else axis + rank
        # A non-negative axis is resolved against the highest rank among the blocks.
        obj = self.m.TiledBlocks(*((x.obj, rep) for x, rep in parts), axis=ax)
        raws = sum([x.raws for x, _ in parts], [])
        return Operand(
            obj,
            build("val"),
            build("mag"),
            f"TiledBlocks(axis={ax})[{', '.join(f'{x.desc}*{r}' for x, r in parts)}]",
            "tb",
            raws,
            self.dtype,
            parts=tuple(parts),
        )

    def exact(self, kind, m, n, b, prof, nest):
        """Generate with exactly batch shape `b`."""
        for _ in range(20):
            x = self.matrix(kind, m, n, b, prof, nest)
            if x.val.shape[:-2] == tuple(b):
                return x
        old = self.sub_batch
        self.sub_batch = lambda t, p_full=0.5: tuple(t)
        try:
            return self.matrix(kind, m, n, b, prof, nest)
        finally:
            self.sub_batch = old

    # -- scalars ---------------------------------------------------------------------
    def scalar(self, prof="any"):
        how = self.pick(["int", "float", "npscalar", "zerod", "zero"])
        if how == "zero":
            s = self.pick([0, 0.0, np.float64(0)]) if prof != "pos" and prof != "nonzero" else 2
        elif how == "int":
            s = int(self.rng.integers(1, 5)) * (1 if prof in ("pos", "nonneg") or self.chance(0.5) else -1)
        else:
            s = float(self.raw((), "nonzero" if prof == "any" else prof))
            if how == "npscalar":
                s = np.float64(s) if self.dtype != "f4" else np.float32(s)
            elif how == "zerod":
                s = np.array(s, dtype=np.float64 if self.dtype != "f4" else np.float32)
        v = np.asarray(s, dtype=np.float64).reshape(1, 1)
        dt = "i8" if isinstance(s, int) else self.dtype
        return Operand(s, v, np.abs(v), f"scalar:{type(s).__name__}={s!r}", "scalar", [s] if isinstance(s, np.ndarray) else [], dt)
