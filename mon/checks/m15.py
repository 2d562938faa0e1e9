"""M15: nothing is converted to dense silently, and what exploits structure never is."""

import gc
import operator
import os
import sys
import tracemalloc
import warnings

import numpy as np

from .. import env

ID = "M15"
REPS = {"quick": 9, "thorough": 220}
BUDGET = {"quick": 110, "thorough": 780}
MIN_EVENTS = {t: {"memory_measured": 3000, "promises_checked": 1500, "warned": 300} for t in REPS}
RULE = (
    "one case = one structured kind (or a pair) at sizes of a few hundred: every operation of the catalogue is run on freshly"
    " generated operands under an allocation tracer (NumPy's buffers included) with all warnings recorded. Violation: a peak"
    " of 45% of the dense operand or result or more without a ToDenseWarning; a warning or such a peak for an operation that is"
    " promised to exploit structure; a ToDenseWarning for explicit conversion of a matrix with plain factors; an operation that does not raise once the warning is an error; a warning attributed to the library itself."
    " A peak only counts if it shows again on regenerated operands. Distinct: distinct (operation, operand types incl. nested, outcome)"
)
ASSUMPTIONS = ["structured operands are of rank 3 or less with factors far smaller than the matrix"]

ALL = SQ = ["zero", "diag", "const", "lr", "wb", "kron"]


class BigGen:
    """Large structured operands whose representation is far smaller than the matrix."""

    def __init__(self, rng, m, dtype, simple=False):
        self.max_rank = 3
        self.simple = simple  # factors are arrays and dense matrices
        self.rng, self.m, self.dt = rng, m, {"f8": np.float64, "f4": np.float32}[dtype]

    def r(self, *s):
        return self.rng.standard_normal(s).astype(self.dt)

    def p(self, *s):
        return self.rng.uniform(0.5, 2.0, size=s).astype(self.dt)

    def pick(self, xs):
        return xs[self.rng.integers(len(xs))]

    def matrix(self, kind, sz, b=(), nest=0, pd=False):
        return getattr(self, "_" + kind)(sz, b, nest, pd)

    # `sz` = ((m1, m2), (n1, n2)): rows m1 * m2, columns n1 * n2
    def _zero(self, sz, b, nest, pd):
        (m, n) = dims(sz)
        return self.m.Zero(self.dt, *b, m, n), f"Zero{b}"

    def _diag(self, sz, b, nest, pd):
        n = dims(sz)[0]
        return self.m.Diagonal(self.p(*b, n)), f"Diagonal{b}"

    def _const(self, sz, b, nest, pd):
        (m, n) = dims(sz)
        c = self.p(*b) if b or self.rng.random() < 0.5 else float(self.p(1)[0])
        return self.m.Constant(np.asarray(c) if b else self.dt(c), m, n), f"Constant{b}"

    def thin(self, mm, r, b, nest):
        """A tall and thin factor."""
        k = self.pick(["np", "np", "dense", "const", "lr", "kron"]) if nest < 1 and not self.simple else "np"
        m = mm[0] * mm[1]
        if k == "np":
            return self.r(*b, m, r), "np"
        if k == "dense":
            return self.m.Dense(self.r(*b, m, r)), "Dense"
        if k == "const":
            return self.m.Constant(self.p(*b), m, r), "Constant"
        if k == "lr":
            return self.m.LowRank(self.r(*b, m, 1), self.r(*b, r, 1)), "LowRank"
        return self.m.Kronecker(self.m.Dense(self.r(*b, mm[0], 1)), self.m.Dense(self.r(*b, mm[1], r))), "Kronecker"

    def _lr(self, sz, b, nest, pd):
        r = int(self.rng.integers(1, self.max_rank + 1))
        (left, dl) = self.thin(sz[0], r, b, nest)
        kw, dr, dm = {}, "same", "I"
        if not pd and (sz[0] != sz[1] or self.rng.random() < 0.5):
            kw["right"], dr = self.thin(sz[1], r, b, nest)
        how = self.pick(["none", "none", "np", "diag", "dense"]) if not self.simple else self.pick(["none", "np", "dense"])
        if how != "none":
            mid = np.eye(r, dtype=self.dt) + 0.1 * np.ones((r, r), self.dt)
            kw["middle"] = {"np": lambda: mid, "diag": lambda: self.m.Diagonal(self.p(r)), "dense": lambda: self.m.Dense(mid)}[how]()
            dm = how
        return self.m.LowRank(left, **kw), f"LowRank[{dl}|{dm}|{dr}]{b}"

    def _wb(self, sz, b, nest, pd):
        b1, b2 = self.parts(b)
        (d, d1), (l, dl) = self._diag(sz, b1, nest, pd), self._lr(sz, b2, nest, pd)
        return self.m.Woodbury(d, l), f"Woodbury[{d1}|{dl}]{b}"

    def parts(self, b):
        """Batches for two parts of a matrix, which are not always the same."""
        if not b or self.rng.random() < 0.6:
            return b, b
        c = self.pick([(), (1,) * len(b)])
        return (b, c) if self.rng.random() < 0.5 else (c, b)

    def _kron(self, sz, b, nest, pd):
        out, ds, bs, full = [], [], self.parts(b), b
        for i in range(2):
            m, n, b = sz[0][i], sz[1][i], bs[i]
            k = "dense" if self.simple else self.pick(["dense", "dense", "diag", "lt", "lr", "wb"] if m == n else ["dense", "lr"])
            if pd and k in ("lt", "lr"):
                k = "dense"
            if k == "dense":
                a = self.r(*b, m, n)
                if m == n:
                    a = a @ np.swapaxes(a, -1, -2) / n + np.eye(n, dtype=self.dt)
                out.append(self.m.Dense(a))
            elif k == "lt":
                out.append(self.m.LowerTriangular(np.tril(0.1 * self.r(*b, m, n)) + 2 * np.eye(n, dtype=self.dt)))
            else:
                out.append(self.matrix(k, ((m, 1), (n, 1)), b, 1, pd)[0])
            ds.append(k)
        return self.m.Kronecker(*out), f"Kronecker[{'x'.join(ds)}]{full}{bs}"


def dims(sz):
    return sz[0][0] * sz[0][1], sz[1][0] * sz[1][1]


SIZES = [((20, 21), (20, 21)), ((18, 25), (18, 25)), ((21, 21), (21, 21)), ((22, 20), (22, 20))]
RECT = [((20, 21), (18, 21)), ((18, 25), (22, 25)), ((21, 21), (21, 17))]


def unary_ops(B, n, m, dt, rng):
    """(name, function, square only, positive definite only)."""
    one = np.ones((n, 1), dt)
    onem = np.ones((m, 1), dt)
    few = [1, 2, 5]
    some = np.arange(n) % 3 > 0
    c = float(rng.uniform(0.5, 2))
    return [
        ("neg", lambda a: -a, 0, 0), ("abs", abs, 0, 0), ("T", lambda a: a.T, 0, 0), ("sum", B.sum, 0, 0),
        ("sum-1", lambda a: B.sum(a, axis=-1), 0, 0), ("sum-2", lambda a: B.sum(a, axis=-2), 0, 0), ("mean", B.mean, 0, 0),
        ("mean-1", lambda a: B.mean(a, axis=-1), 0, 0), ("diag", B.diag, 0, 0), ("diag_extract", B.diag_extract, 0, 0),
        ("trace", B.trace, 1, 0), ("take few rows", lambda a: B.take(a, few, axis=-2), 0, 0),
        ("take few columns", lambda a: B.take(a, few, axis=-1), 0, 0), ("take rows", lambda a: B.take(a, list(range(m - 1)), axis=-2), 0, 0),
        ("mask columns", lambda a: B.take(a, some, axis=-1), 0, 0), ("submatrix few", lambda a: B.submatrix(a, few), 1, 0),
        ("submatrix", lambda a: B.submatrix(a, np.arange(n - 1)), 1, 0), ("pow2", lambda a: a**2, 0, 0), ("sqrt", B.sqrt, 0, 0),
        ("scalar*", lambda a: c * a, 0, 0), ("*scalar", lambda a: a * c, 0, 0), ("/scalar", lambda a: a / c, 0, 0),
        ("+scalar", lambda a: a + c, 0, 0), ("scalar-", lambda a: c - a, 0, 0), ("*0", lambda a: a * 0, 0, 0),
        ("cast", lambda a: B.cast(np.float32, a), 0, 0), ("cholesky", B.cholesky, 1, 1), ("root", B.root, 1, 1), ("inv", B.inv, 1, 1),
        ("pd_inv", B.pd_inv, 1, 1), ("logdet", B.logdet, 1, 1), ("schur", B.schur, 1, 1), ("pd_schur", B.pd_schur, 1, 1),
        ("ones", B.ones, 0, 0), ("zeros", B.zeros, 0, 0), ("eye", B.eye, 1, 0), ("tile1", lambda a: B.tile(a, 1, 1), 0, 0),
        ("tile2", lambda a: B.tile(a, 2, 1), 0, 0), ("isnan", B.isnan, 0, 0), ("str", str, 0, 0),
        ("shape", lambda a: (B.shape(a), a.shape, B.dtype(a), B.shape_batch(a)), 0, 0), ("squeeze", B.squeeze, 0, 0),
        ("reshape", lambda a: B.reshape(a, -1), 0, 0), ("row", lambda a: a[0], 0, 0),
        ("iqf vector", lambda a: B.iqf(a, one), 1, 1), ("iqf_diag vector", lambda a: B.iqf_diag(a, one), 1, 1),
        ("solve vector", lambda a: B.solve(a, one), 1, 1), ("@vector", lambda a: a @ one, 0, 0), ("vector@", lambda a: onem.T @ a, 0, 0),
        ("T@vector", lambda a: B.matmul(a, onem, tr_a=True), 0, 0),
        ("broadcast_batch_to", lambda a: B.broadcast_batch_to(a, 2), 0, 0), ("sample", B.sample, 1, 1),
        ("sum batch", lambda a: B.sum(a, axis=int(np.argmax(B.shape(a)[:-2]))), 0, 0), ("mean batch", lambda a: B.mean(a, axis=0), 0, 0),
        ("rank", B.rank, 0, 0), ("kron small", lambda a: B.kron(a, small(dt)), 0, 0),
        ("self+self", lambda a: a + a, 0, 0), ("self-self", lambda a: a - a, 0, 0), ("self@T", lambda a: a @ a.T, 0, 0),
        ("self*self", lambda a: a * a, 0, 0), ("block_diag self", lambda a: B.block_diag(a, a), 1, 0),
    ]


def small(dt):
    import matrix

    return matrix.Diagonal(np.ones(2, dt))


def binary_ops(B):
    return [
        ("+", operator.add, 0), ("-", operator.sub, 0), ("*", operator.mul, 0), ("/", operator.truediv, 0), ("@T", lambda a, b: B.matmul(a, b, tr_b=True), 0),
        ("T@", lambda a, b: B.matmul(a, b, tr_a=True), 0), ("@", operator.matmul, 1), ("T@T", lambda a, b: B.matmul(a, b, tr_a=True, tr_b=True), 1),
        ("matmul_diag", B.matmul_diag, 1), ("matmul_diag@T", lambda a, b: B.matmul_diag(a, b, tr_b=True), 1),
        ("block_diag", B.block_diag, 0), ("block2", lambda a, b: B.block([a, b]), 0), ("concat", lambda a, b: B.concat(a, b, axis=-2), 0),
        ("solve", B.solve, 2), ("iqf", B.iqf, 2), ("iqf_diag", B.iqf_diag, 2), ("ratio", B.ratio, 3), ("3@", lambda a, b: B.matmul(a, b, a), 1),
    ]


def measure(f):
    """Result, exception, peak allocation, and the warnings."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        gc.disable()
        tracemalloc.start()
        try:
            try:
                res, exc = f(), None
            except Exception as e:
                res, exc = None, e
            peak = tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()
            gc.enable()
    return res, exc, peak, w



# What never converts to dense: "strong" means without a warning if the factors are arrays or dense; "weak" allows
# warnings, which then are about factors.
_all = set(SQ)
STRONG = {
    **{o: _all for o in ("neg", "T", "sum", "sum-1", "sum-2", "mean", "mean-1", "scalar*", "*scalar", "/scalar", "*0", "cast", "ones",
                         "zeros", "eye", "str", "shape", "broadcast_batch_to", "rank", "kron small", "@vector", "vector@",
                         "T@vector", "self*self", "trace", "sample", "diag", "diag_extract")},
    **{o: {"zero", "const", "lr"} for o in ("take few rows", "take few columns", "take rows", "mask columns")},
    **{o: {"zero", "diag", "const", "lr", "wb"} for o in ("submatrix few", "submatrix")},
    **{o: {"zero", "diag", "const", "kron"} for o in ("pow2", "sqrt", "root")},
    **{o: {"zero", "diag", "const"} for o in ("+scalar", "scalar-", "self+self", "self-self")},
    "cholesky": {"zero", "diag", "const", "lr", "kron"},
    **{o: {"diag", "wb", "kron"} for o in ("inv", "pd_inv", "logdet")},
    **{o: {"wb"} for o in ("schur", "pd_schur")},
    **{o: {"diag", "wb"} for o in ("iqf vector", "iqf_diag vector", "solve vector")},
    "self@T": {"zero", "diag", "const", "lr", "kron"},
    "block_diag self": {"zero", "diag"},
    **{o: {"zero", "diag", "const"} for o in ("sum batch", "mean batch")},
}
WEAK = {
    **{o: {"lr", "wb"} for o in ("+scalar", "scalar-", "self+self", "self-self")},
    "self@T": {"wb"},
}


def pairs(*xs):
    out = set()
    for a, b in xs:
        for p in a.split():
            for q in b.split():
                out |= {(p, q), (q, p)}
    return out


_z = ("zero", " ".join(SQ))
_any = pairs((" ".join(SQ), " ".join(SQ)))
BSTRONG = {
    **{o: pairs(_z, ("diag", "diag const lr wb"), ("const", "const")) for o in ("+", "-")},
    "*": _any - pairs(("lr wb", "kron")),
    "/": {(k, "const") for k in SQ},
    **{o: pairs(_z, ("diag const lr", "diag const lr"), ("diag", "wb"), ("const lr kron", "kron")) for o in ("@", "@T", "T@", "T@T")},
    "3@": pairs(_z, ("diag const lr", "diag const lr"), ("const lr kron", "kron")),
    **{o: _any - pairs(("lr wb", "kron")) for o in ("matmul_diag", "matmul_diag@T")},
    "block_diag": {("zero", "zero"), ("diag", "diag")},
    "block2": {("zero", "zero")},
    # Left operand: the numerator or right-hand side; right operand: what is inverted.
    "solve": {(k, "diag") for k in ("zero", "diag", "const", "lr", "wb")} | {(k, "wb") for k in ("zero", "diag")},
    "iqf": {(k, "diag") for k in ("zero", "diag", "const", "lr")} | {(k, "wb") for k in ("zero", "diag")},
    "iqf_diag": {(k, "diag") for k in ("zero", "diag", "const", "lr", "wb")} | {(k, "wb") for k in ("zero", "diag")},
    "ratio": {(k, "diag") for k in ("zero", "diag", "const", "lr")} | {(k, "wb") for k in ("zero", "diag", "const", "lr", "wb")},
}
# With one dense operand: operations that warn if they convert the other one, and what never converts it.
# (The product of constant and dense matrices is formed for its diagonal: nothing is converted.)
DSILENT = {"*", "/", "matmul_diag", "matmul_diag@T", "block_diag", "block2", "concat"}
DSTRONG = {
    **{o: pairs(("zero", "dense"), ("const", "dense")) for o in ("+", "*")},
    "-": pairs(("zero", "dense")) | {("dense", "const")},
    "/": {("dense", "const")},
    **{o: pairs(("zero diag const lr", "dense")) for o in ("@", "@T", "T@", "T@T")},
    **{o: pairs(("zero diag", "dense")) for o in ("matmul_diag", "matmul_diag@T")},
    "3@": pairs(("zero const", "dense")),
    "solve": {("dense", "zero"), ("diag", "dense")},
}
DSTRONG["*"] |= pairs(("diag", "dense"))
BWEAK = {
    **{o: pairs(("const lr wb", "lr wb"), ("const", "wb")) for o in ("+", "-", "@", "@T", "T@", "T@T")},
    "3@": pairs(("const lr wb", "wb")),
    "solve": {(k, "wb") for k in ("const", "lr", "wb")},
    "iqf": {("wb", "diag"), ("const", "wb"), ("lr", "wb")},
    "iqf_diag": {("const", "wb"), ("lr", "wb")},
}


def strata(tier):
    return (
        ["unary " + k for k in SQ for _ in range(2)] + ["rect " + k for k in ("zero", "const", "lr", "kron")]
        + [f"binary {a},{b}" for a in SQ for b in SQ] + [f"brect {a},{b}" for a in ("zero", "const", "lr", "kron") for b in ("zero", "const", "lr", "kron")]
        + [f"dense {a},dense" for a in SQ] + [f"dense dense,{a}" for a in SQ] + ["discipline"] * 6
    )


def setup(ctx):
    ctx.B.epsilon = 1e-10
    ctx.cat = sys.modules["matrix.util"].ToDenseWarning
    ctx.lib = os.path.join(os.path.realpath(env.REPO), "matrix") + os.sep


def nbytes(ctx, x):
    """Memory of a result."""
    seen = {}

    def go(x):
        if isinstance(x, ctx.m.AbstractMatrix):
            for y in vars(x).values():
                go(y)
        elif isinstance(x, np.ndarray):
            seen[id(x)] = x.nbytes
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)

    go(x)
    return sum(seen.values())


def judge(ctx, key, make, f, strong, weak, simple, silent=True, extra=False):
    """Measure on fresh operands; believe a peak only if it shows twice. If `extra`, one of the operands is dense
    and so may be the result: what counts is memory beyond that of the result."""
    B = ctx.B
    for attempt in range(2):
        objs, desc = make()
        its = [np.dtype(B.dtype(x)).itemsize for x in objs]
        size = min(int(np.prod(tuple(B.shape_matrix(x)))) for x in objs)
        res, exc, peak, w = measure(lambda: f(*objs))
        warned = [x for x in w if issubclass(x.category, ctx.cat)]
        if extra and exc is None:
            peak = max(peak - nbytes(ctx, res), 0)
        big = peak >= 0.45 * size * min(its)
        if not big:
            break
    desc = f"{key}: {desc}"
    for x in warned:
        if os.path.realpath(x.filename).startswith(ctx.lib):
            ctx.fail(f"{key}:LOCATION", f"{desc}: the warning is attributed to {x.filename}:{x.lineno}, inside the library")
    if exc is not None:
        ctx.events["failed"] += 1
        if strong and not isinstance(exc, AssertionError):
            ctx.fail(f"{key}:{type(exc).__name__}", f"{desc}: {type(exc).__name__}: {str(exc)[:300]}")
        return
    ctx.event("memory_measured", f"{desc}|{bool(warned)}|{big}")
    if warned:
        ctx.events["warned"] += 1
    if big:
        ctx.events["dense_with_warning"] += bool(warned)
        if not warned and silent:
            ctx.fail(f"{key}:SILENT", f"{desc}: allocated {peak / (size * min(its)):.2f} times the dense matrix without a ToDenseWarning")
    if strong or weak:
        ctx.events["promises_checked"] += 1
        if big:
            ctx.fail(f"{key}:DENSE", f"{desc}: allocated {peak / (size * min(its)):.2f} times the dense matrix, which this operation must not need"
                     f" ({str(warned[0].message)[:200] if warned else 'no warning'})")
        elif warned and strong and simple:
            ctx.fail(f"{key}:WARNED", f"{desc}: warns: {str(warned[0].message)[:300]}")
    ctx.sample(f"{desc}: peak {peak / (size * min(its)):.3f} of dense, {len(warned)} warnings")


def run(ctx, rng, name, rep):
    B, m = ctx.B, ctx.m
    if name == "discipline":
        return discipline(ctx, rng)
    how, ks = name.split(" ")
    ks = ks.split(",")
    rect = "rect" in how
    sz = (RECT if rect else SIZES)[rng.integers(3)]
    if rect and rng.random() < 0.5:
        sz = (sz[1], sz[0])
    (rows, cols) = dims(sz)
    simple = rng.random() < 0.6
    g = BigGen(rng, m, str(rng.choice(["f8", "f8", "f4"])), simple)
    b = (2,) if rng.random() < 0.35 else ()
    if len(ks) == 2:
        g.max_rank = 2

    def sub():
        return b if rng.random() < 0.6 else ()

    with np.errstate(all="ignore"):
        if how == "dense":
            for nm, f, sq in binary_ops(B):

                def make():
                    out = []
                    for k in ks:
                        pd = sq == 3 or sq == 2 and not out
                        if k == "dense":
                            a = g.r(*sub(), rows, rows)
                            if pd:
                                a = a @ np.swapaxes(a, -1, -2) / rows + np.eye(rows, dtype=g.dt)
                            out.append((m.Dense(a), f"Dense{a.shape[:-2]}"))
                        else:
                            out.append(g.matrix(k, sz, sub(), 0, pd))
                    return [x for x, _ in out], f"{out[0][1]}, {out[1][1]} {simple}"

                if nm in ("solve", "iqf", "iqf_diag", "ratio") and (nm, *ks) != ("solve", "dense", "zero") and ks != ["diag", "dense"]:
                    continue  # slow, and dense anyway
                judge(ctx, f"{nm}({','.join(ks)})", make, f, simple and tuple(ks) in DSTRONG.get(nm, ()), False, simple, nm in DSILENT and not ("diag" in nm and "const" in ks), True)
        elif len(ks) == 1:
            k = ks[0]
            for nm, f, sq, pd in unary_ops(B, cols, rows, g.dt, rng):
                if sq and rect or "batch" in nm and nm[0] in "sm" and not b:
                    continue

                def make():
                    x, d = g.matrix(k, sz, b, 0, bool(pd))
                    return [x], f"{d} {rows == cols} {simple}"

                weak = k in WEAK.get(nm, ())
                strong = k in STRONG.get(nm, ()) and not (rect and k == "kron" and nm in ("diag", "diag_extract"))
                if nm in ("cholesky", "sample", "root") and k == "lr" and rect:
                    continue
                judge(ctx, f"{nm}({k})", make, f, strong, weak, simple)
        else:
            for nm, f, sq in binary_ops(B):
                if sq and rect:
                    continue

                def make():
                    x, d1 = g.matrix(ks[0], sz, sub(), 0, sq == 3)
                    y, d2 = g.matrix(ks[1], sz, sub(), 0, sq >= 2)
                    if nm in ("solve", "iqf", "iqf_diag"):
                        return [y, x], f"{d2}, {d1} {rows == cols} {simple}"
                    return [x, y], f"{d1}, {d2} {rows == cols} {simple}"

                p = tuple(ks)
                judge(ctx, f"{nm}({','.join(ks)})", make, f, p in BSTRONG.get(nm, ()), p in BWEAK.get(nm, ()), simple)


def discipline(ctx, rng):
    """Explicit conversion does not warn; warnings can be made errors, which change nothing."""
    B, m = ctx.B, ctx.m
    g = BigGen(rng, m, str(rng.choice(["f8", "f4"])), simple=True)
    for _ in range(6):
        k = g.pick(SQ)
        rect = k in ("zero", "const", "lr", "kron") and rng.random() < 0.5
        x, d = g.matrix(k, ((3, 4), (2, 5)) if rect else ((3, 4), (3, 4)), (2,) if rng.random() < 0.3 else ())
        for what, f in (("dense", B.dense), ("to_numpy", B.to_numpy), ("repr", repr)):
            _, exc, _, w = measure(lambda: f(x))
            ctx.event("explicit_conversions", f"{what}({d})"[:150])
            bad = [y for y in w if issubclass(y.category, ctx.cat)]
            if bad or exc is not None:
                ctx.fail(f"{what}({k}):WARNED", f"{what}({d}) " + (f"warns: {bad[0].message}" if bad else f"raises {exc}"))
    # Where everything is dense already, nothing warns.
    for _ in range(4):
        b = (2,) if rng.random() < 0.3 else ()
        xs = [g.r(*b, 4, 4) for _ in range(2)]
        xs = [m.Dense(x @ np.swapaxes(x, -1, -2) + np.eye(4, dtype=g.dt)) for x in xs]
        ops = [(nm, f) for nm, f, sq in binary_ops(B)] + [(nm, lambda a, b, f=f: f(a)) for nm, f, *_ in unary_ops(B, 4, 4, g.dt, rng) if nm not in ("kron small", "sum batch", "mean batch")]
        ops += [("broadcast_to", lambda a, b: B.broadcast_to(m.Dense(B.dense(a)[..., :1, :]), 3, *B.shape(a))), ("take rows of both", lambda a, b: B.take(B.take(a, [0, 2], axis=-1), [1], axis=-2)),
                ("reshape", lambda a, b: B.reshape(a, *B.shape(a)[:-2], -1)), ("concat columns", lambda a, b: B.concat(a, b, a, b, axis=-1)), ("a@b@a", lambda a, b: B.matmul(a, b, a)),
                ("trisolve", lambda a, b: B.trisolve(a, b)), ("cholsolve", lambda a, b: B.cholsolve(a, b)), ("to_numpy", lambda a, b: B.to_numpy(a))]
        ops = [(nm, f) for nm, f in ops if "block" not in nm and nm != "ratio"]  # these make zeros and factors
        for nm, f in [ops[i] for i in rng.permutation(len(ops))[:25]]:
            how = rng.integers(3) if nm in ("+", "-", "*", "/", "@") else 2
            ys = [x.mat if i == how else x for i, x in enumerate(xs)]  # sometimes a plain array
            _, exc, _, w = measure(lambda: f(*ys))
            ctx.event("dense_operations", f"{nm}{how}{b}")
            bad = [y for y in w if issubclass(y.category, ctx.cat)]
            if bad:
                ctx.fail(f"{nm}(dense,dense):WARNED", f"{nm} of dense matrices {b} warns: {bad[0].message}")
    g = BigGen(rng, m, "f8")
    for _ in range(4):
        k, j = g.pick(SQ), g.pick(SQ)
        sz = ((3, 4), (3, 4))
        cands = [(nm, f) for nm, f, sq in binary_ops(B)] if rng.random() < 0.6 else [
            (nm, lambda a, b, f=f: f(a)) for nm, f, *_ in unary_ops(B, 12, 12, g.dt, rng)]
        nm, f = cands[rng.integers(len(cands))]
        state = rng.bit_generator.state

        def make():
            rng.bit_generator.state = state
            return [g.matrix(k, sz, (), 0, True)[0], g.matrix(j, sz, (), 0, True)[0]]

        objs = make()
        ref, exc, _, w = measure(lambda: f(*objs))
        warned = [y for y in w if issubclass(y.category, ctx.cat)]
        if exc is not None:
            continue
        objs = make()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            warnings.simplefilter("error", ctx.cat)
            try:
                f(*objs)
                raised = False
            except ctx.cat:
                raised = True
            except Exception as e:
                ctx.fail(f"{nm}({k},{j}):{type(e).__name__}", f"{nm}({k}, {j}) with ToDenseWarning as an error: {type(e).__name__}: {e}")
                continue
        ctx.event("warnings_as_errors", f"{nm}|{k}|{j}|{raised}")
        if raised != bool(warned):
            ctx.fail(f"{nm}({k},{j}):FILTER", f"{nm}({k}, {j}) warns: {bool(warned)}; raises if the warning is an error: {raised}")
        if raised and nm not in ("str", "shape", "rank", "sample"):
            again, exc, _, _ = measure(lambda: f(*objs))
            if exc is not None:
                ctx.fail(f"{nm}({k},{j}):AFTER", f"{nm}({k}, {j}) after the warning was an error: {type(exc).__name__}: {exc}")
            elif not np.array_equal(np.asarray(B.dense(ref)), np.asarray(B.dense(again)), equal_nan=True):
                ctx.fail(f"{nm}({k},{j}):AFTER", f"{nm}({k}, {j}) gives another result after the warning was an error")
