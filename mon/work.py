"""A meter for numerical work: multiply-adds of matrix products and of factorisations."""

import collections

import numpy as np
import scipy.linalg as sla


class Meter:
    def __init__(self):
        self.flops = 0
        self.count = collections.Counter()
        self.largest = 0
        self.depth = 0
        self.saved = []

    def note(self, kind, flops, n=0):
        self.flops += flops
        self.count[kind] += 1
        self.largest = max(self.largest, n)

    def _wrap(self, mod, name, cost):
        f = getattr(mod, name)
        self.saved.append((mod, name, f))

        def g(*a, **k):
            if self.depth == 0:
                try:
                    self.note(name, *cost(*a, **k))
                except Exception:  # the call will say what is wrong
                    pass
            self.depth += 1
            try:
                return f(*a, **k)
            finally:
                self.depth -= 1

        setattr(mod, name, g)

    def __enter__(self):
        for name in ("matmul", "dot", "einsum"):
            self._wrap(np, name, {"matmul": product, "dot": product, "einsum": contraction}[name])
        for name in ("cholesky", "inv", "svd", "eig", "eigh", "qr", "slogdet", "det", "solve", "pinv"):
            self._wrap(np.linalg, name, factorisation)
        for name in ("solve_triangular",):
            self._wrap(sla, name, triangular)
        for name in ("cholesky", "inv", "lu_factor", "cho_factor", "svd", "eigh", "solve"):
            self._wrap(sla, name, factorisation)
        return self

    def __exit__(self, *_):
        for mod, name, f in reversed(self.saved):
            setattr(mod, name, f)
        self.saved = []


def product(a, b, *_, **__):
    a, b = np.shape(a), np.shape(b)
    if len(a) < 2 or len(b) < 2:
        return int(np.prod(a)) * (b[-1] if len(b) > 1 else 1), 0
    batch = np.broadcast_shapes(a[:-2], b[:-2])
    return int(np.prod(batch, dtype=int)) * a[-2] * a[-1] * b[-1], 0


def contraction(eq, *xs, **__):
    sizes = {}
    for term, x in zip(eq.split("->")[0].replace(" ", "").split(","), xs):
        for c, n in zip(term.replace("...", ""), np.shape(x)[::-1][: len(term.replace("...", ""))][::-1]):
            sizes[c] = n
    return int(np.prod(list(sizes.values()), dtype=int)), 0


def factorisation(a, b=None, *_, **__):
    s = np.shape(a)
    rhs = np.shape(b)[-1] if b is not None and np.ndim(b) > 1 else 0
    return int(np.prod(s[:-2], dtype=int)) * s[-1] * s[-2] * (min(s[-2:]) + rhs), max(s[-2:])


def triangular(a, b, *_, **__):
    s = np.shape(a)
    return int(np.prod(s[:-2], dtype=int)) * s[-1] * s[-2] * (np.shape(b)[-1] if np.ndim(b) > 1 else 1), 0
