"""A catalogue of operations, instantiated on random operands.

Each instance knows which operands it takes, how to run itself on library objects, and what
it denotes on plain arrays (`ref` on values; `mag` on absolute values, an entrywise bound of
the terms added up). `exact` instances involve no rounding on small integers."""

import numpy as np

from .gen import Gen, MATRIX_KINDS, Operand, SQUARE_ONLY, kron2, mm, mT

SQ_TYPES = {"Diagonal", "LowerTriangular", "UpperTriangular", "Woodbury"}


class Inst:
    __slots__ = ("name", "args", "run", "ref", "mag", "exact", "matrix", "tag")

    def __init__(self, name, args, run, ref, mag=None, exact=True, matrix=True, tag=""):
        self.name = name
        self.args = args
        self.run = run
        self.ref = ref
        self.mag = mag or ref
        self.exact = exact
        self.matrix = matrix  # the result is a matrix that can be operated on again
        self.tag = tag

    def call(self, objs=None):
        return self.run(*(objs if objs is not None else [x.obj for x in self.args]))

    def value(self):
        return self.ref(*[x.val for x in self.args])

    def magnitude(self):
        return self.mag(*[x.mag for x in self.args])

    @property
    def kinds(self):
        return tuple(x.kind for x in self.args)

    @property
    def desc(self):
        return f"{self.name}{self.tag}({', '.join(x.desc for x in self.args)})"


def sq_type(x):
    return type(x.obj).__name__ in SQ_TYPES


def is_tb(x):
    return "TiledBlocks" in type(x.obj).__name__


def elementwise_ok(a, b):
    """Operands that are square by type must not be broadcast over their matrix axes."""
    try:
        s = np.broadcast_shapes(a.val.shape[-2:], b.val.shape[-2:])
        full = np.broadcast_shapes(a.val.shape, b.val.shape)
    except ValueError:
        return False
    if int(np.prod(full)) > 4000:
        return False
    for x in (a, b):
        if sq_type(x) and x.val.shape[-2:] != s:
            return False
        if type(x.obj).__name__ in ("LowRank", "Kronecker") and x.val.shape[-2:] != s:
            return False
    return True


def unary(B, g, a):
    """One random unary instance on `a` (a matrix)."""
    rng = g.rng
    v = a.val
    r = v.ndim
    name = g.pick(
        ["neg", "abs", "T", "sum", "diag", "trace", "take", "mask", "submatrix", "reshape", "squeeze", "tile", "bto", "bbt",
         "pow2", "mean", "getitem", "dense", "ones", "zeros", "scalar", "scalar", "cast"],
        p=np.array([3, 2, 4, 3, 3, 2, 3, 2, 2, 1, 1, 1, 2, 2, 2, 1, 1, 1, 1, 1, 3, 3, 1]) / 45,
    )
    pw = 2
    if name == "neg":
        return Inst(name, [a], lambda x: -x, lambda x: -x, lambda x: x)
    if name == "abs":
        return Inst(name, [a], lambda x: B.abs(x), np.abs)
    if name == "T":
        return Inst(name, [a], lambda x: x.T, mT)
    if name in ("sum", "mean"):
        ax = [None] + list(range(-r, r))
        ax = ax[rng.integers(len(ax))]
        f, nf = getattr(B, name), getattr(np, name)
        batch = ax is not None and ax % r < r - 2
        return Inst(
            name, [a], lambda x: f(x, axis=ax), lambda x: nf(x, axis=ax), exact=name == "sum", matrix=batch, tag=f"[{ax}]"
        )
    if name == "diag":
        return Inst(name, [a], lambda x: B.diag(x), lambda x: np.diagonal(x, axis1=-2, axis2=-1), matrix=False)
    if name == "trace":
        return Inst(name, [a], lambda x: B.trace(x), lambda x: np.trace(x, axis1=-2, axis2=-1), matrix=False)
    if name in ("take", "mask"):
        ax = int(rng.integers(-r, r)) if g.chance(0.5) else int(g.pick([-1, -2]))
        L = v.shape[ax]
        if name == "take":
            idx = rng.integers(0, L, size=rng.integers(1, L + 2))
            sel = idx if g.chance(0.5) else [int(i) for i in idx]
            fn = lambda x: np.take(x, idx, axis=ax)  # noqa
        else:
            idx = rng.random(L) < 0.6
            idx[rng.integers(L)] = True
            sel = idx
            fn = lambda x: np.compress(idx, x, axis=ax)  # noqa
        return Inst(name, [a], lambda x: B.take(x, sel, axis=ax), fn, tag=f"[{ax}]")
    if name == "submatrix":
        n = v.shape[-1]
        if v.shape[-2] != n:
            return None
        idx = np.sort(rng.permutation(n)[: rng.integers(1, n + 1)])
        return Inst(name, [a], lambda x: B.submatrix(x, idx), lambda x: x[..., idx, :][..., :, idx])
    if name == "reshape":
        return Inst(name, [a], lambda x: B.reshape(x, -1), lambda x: x.reshape(-1), matrix=False)
    if name == "squeeze":
        return Inst(name, [a], lambda x: B.squeeze(x), lambda x: x.squeeze(), matrix=False)
    if name == "getitem":
        i = int(rng.integers(v.shape[-1]))
        return Inst(name, [a], lambda x: x[..., i], lambda x: x[..., i], matrix=False)
    if name == "tile":
        reps = [int(g.pick([1, 2], p=[0.6, 0.4])) for _ in range(r)]
        if v.size * int(np.prod(reps)) > 3000:
            return None
        return Inst(name, [a], lambda x: B.tile(x, *reps), lambda x: np.tile(x, reps), tag=f"{reps}")
    if name in ("bto", "bbt"):
        if v.size > 800 or r > 4:
            return None
        lead = (2,) if g.chance(0.5) else ()
        tgt = lead + tuple(int(g.pick([1, 3])) if d == 1 else d for d in v.shape[:-2])
        if name == "bbt":
            return Inst(
                name, [a], lambda x: B.broadcast_batch_to(x, *tgt), lambda x: np.broadcast_to(x, tgt + x.shape[-2:])
            )
        mt = tuple(int(g.pick([1, 3])) if d == 1 and not sq_type(a) else d for d in v.shape[-2:])
        return Inst(name, [a], lambda x: B.broadcast_to(x, *tgt, *mt), lambda x: np.broadcast_to(x, tgt + mt))
    if name == "pow2":
        if is_tb(a):
            return None
        return Inst(name, [a], lambda x: x**pw, lambda x: x**pw)
    if name == "dense":
        return Inst(name, [a], lambda x: B.dense(x), lambda x: x, tag="")
    if name == "ones":
        return Inst(name, [a], lambda x: B.ones(x), np.ones_like)
    if name == "zeros":
        return Inst(name, [a], lambda x: B.zeros(x), np.zeros_like)
    if name == "cast":
        return Inst(name, [a], lambda x: B.cast(np.float64, x), lambda x: x)
    if name == "scalar":
        c = g.pick([0, 1, 2, -1, 3, 2.0, -3.0, 0.5, np.float64(2), 0.0])
        op = g.pick(["add", "sub", "rsub", "mul", "rmul", "radd", "div"])
        if op == "div" and c == 0:
            c = 2
        f = {
            "add": lambda x: x + c, "sub": lambda x: x - c, "rsub": lambda x: c - x, "mul": lambda x: x * c,
            "rmul": lambda x: c * x, "radd": lambda x: c + x, "div": lambda x: x / c,
        }[op]
        ac = abs(c)
        fm = {
            "add": lambda x: x + ac, "sub": lambda x: x + ac, "rsub": lambda x: x + ac, "mul": lambda x: x * ac,
            "rmul": lambda x: x * ac, "radd": lambda x: x + ac, "div": lambda x: x / ac,
        }[op]
        return Inst("scalar-" + op, [a], f, f, fm, exact=op != "div" or c in (1, 2, -1, 0.5), tag=f"[{c!r}]")


def binary(B, g, a, b):
    rng = g.rng
    name = g.pick(
        ["add", "sub", "mul", "matmul", "matmul_diag", "kron", "concat", "block", "block_diag", "div"],
        p=np.array([6, 5, 4, 8, 2, 2, 1, 1, 1, 1]) / 31,
    )
    numeric = isinstance(a.obj, np.ndarray) and isinstance(b.obj, np.ndarray)
    sa, sb = a.val.shape, b.val.shape
    try:
        bs = np.broadcast_shapes(sa[:-2], sb[:-2])
    except ValueError:
        return None
    if name in ("add", "sub", "mul", "div"):
        if not elementwise_ok(a, b):
            return None
        if name == "add":
            return Inst(name, [a, b], lambda x, y: x + y, lambda x, y: x + y)
        if name == "sub":
            return Inst(name, [a, b], lambda x, y: x - y, lambda x, y: x - y, lambda x, y: x + y)
        if name == "mul":
            return Inst(name, [a, b], lambda x, y: x * y, lambda x, y: x * y)
        if np.any(np.abs(b.val) < 0.3) or numeric:
            return None
        bv = np.abs(b.val)
        return Inst(name, [a, b], lambda x, y: x / y, lambda x, y: x / y, lambda x, y: x / bv, exact=False)
    if name in ("matmul", "matmul_diag"):
        ta, tb = g.chance(0.4), g.chance(0.4)
        opts = [(p, q) for p in (False, True) for q in (False, True)
                if (sa[-2] if p else sa[-1]) == (sb[-1] if q else sb[-2])]
        if not opts:
            return None
        ta, tb = opts[rng.integers(len(opts))]
        T = lambda x, t: mT(x) if t else x  # noqa
        if name == "matmul":
            if numeric:
                return None
            return Inst(
                name, [a, b], lambda x, y: B.matmul(x, y, tr_a=ta, tr_b=tb), lambda x, y: mm(T(x, ta), T(y, tb)),
                tag=f"[{int(ta)}{int(tb)}]",
            )
        if (sa[-1] if ta else sa[-2]) != (sb[-2] if tb else sb[-1]) or numeric:
            return None
        if (sa[-1] if ta else sa[-2]) != (sa[-2] if ta else sa[-1]) and (sq_type(a) or sq_type(b)):
            return None
        return Inst(
            name, [a, b], lambda x, y: B.matmul_diag(x, y, tr_a=ta, tr_b=tb),
            lambda x, y: np.einsum("...ij,...ji->...i", T(x, ta), T(y, tb)), matrix=False, tag=f"[{int(ta)}{int(tb)}]",
        )
    if name == "kron":
        if sa[-2] * sb[-2] * sa[-1] * sb[-1] * int(np.prod(bs)) > 2500 or numeric:
            return None
        return Inst(name, [a, b], lambda x, y: B.kron(x, y), kron2)
    if name == "concat":
        if sa[:-2] != sb[:-2] or numeric or isinstance(a.obj, np.ndarray) or isinstance(b.obj, np.ndarray):
            return None
        ax = -1 if sa[-2] == sb[-2] else (-2 if sa[-1] == sb[-1] else None)
        if ax is None:
            return None
        return Inst(name, [a, b], lambda x, y: B.concat(x, y, axis=ax), lambda x, y: np.concatenate([x, y], axis=ax))
    from .checks.m08 import bcat, bdiag

    if name == "block":
        if sa[-2] != sb[-2]:
            return None
        return Inst(name, [a, b], lambda x, y: B.block([x, y]), lambda x, y: bcat([x, y], -1))
    if (sa[-2] + sb[-2]) * (sa[-1] + sb[-1]) * int(np.prod(bs)) > 2500:
        return None
    return Inst(name, [a, b], lambda x, y: B.block_diag(x, y), lambda x, y: bdiag([x, y]))


def instance(B, g, pool, tries=60):
    """A random instance on operands from the pool."""
    for _ in range(tries):
        if g.chance(0.45):
            a = g.pick(pool)
            if isinstance(a.obj, np.ndarray):
                continue
            inst = unary(B, g, a)
        else:
            a, b = g.pick(pool), g.pick(pool)
            inst = binary(B, g, a, b)
        if inst is not None:
            return inst
    return None


def pool(g, num=6, kinds=MATRIX_KINDS, dims=None, prof="any", batch=None):
    """A pool of operands that fit together often: few distinct sizes and one batch."""
    rng = g.rng
    if not dims:
        dims = [int(d) for d in rng.choice([1, 2, 3, 4, 4, 6], size=2)]
        if g.chance(0.03):
            dims[0] = int(rng.integers(8, 21))
    batch = g.batch(2) if batch is None else batch
    out = []
    for _ in range(num):
        k = g.pick(list(kinds) + ["np"])
        m = g.pick(dims)
        n = m if k in SQUARE_ONLY or g.chance(0.5) else g.pick(dims)
        out.append(g.matrix(k, m, n, batch, prof))
    return out


def as_item(res, inst, B, m):
    """Wrap a result so that it can be operated on again."""
    val, mag = inst.value(), inst.magnitude()
    return Operand(res, val, mag, f"<{inst.name}:{type(res).__name__}{val.shape}>", "res", [], "f8")
