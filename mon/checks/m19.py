"""M19: JAX arrays, eager or compiled, behave as NumPy arrays."""

import numpy as np

from ..common import EPS, signature, skeleton
from ..core import SKIP
from ..gen import Gen, MATRIX_KINDS, SQUARE_ONLY
from ..jaxops import leaves, rebuild
from ..programs import Program, remap
from ..walk import arrays

ID = "M19"
JAX = True
NWORKERS = 8
CASE_TIMEOUT = 200
REPS = {"quick": 22, "thorough": 400}
BUDGET = {"quick": 180, "thorough": 780}
MIN_EVENTS = {t: {"eager_compared": 400, "compiled_compared": 100, "recalls_compared": 150, "selections_traced": 40, "numbers_traced": 200, "abstract_inspected": 400} for t in REPS}
RULE = (
    "one case = a program of one to three operations on shared operands (general or positive-definite catalogue): the operands"
    " are rebuilt around JAX arrays (all, or mixed with NumPy arrays; some outside the function), the program is run eagerly and"
    " compiled by B.jit, and the compiled function is called again with other numbers of the same pattern (as the"
    " control-flow outcomes that the library asks for on them show). Every step must have the value its operands denote"
    " (recomputed with NumPy), the type that it has with NumPy arrays, and the same data type, and operands from outside must"
    " stay usable. For selections the index arrays themselves are traced, and replaced in the next call; likewise the numbers in scalings, shifts and constant matrices. Distinct: distinct (mode, operations, operand types)"
)
ASSUMPTIONS = ["JAX on the CPU with 64 bits enabled; B.jit (LAB) compiles"]


def setup(ctx):
    ctx.B.epsilon = 0
    import jax
    import jax.numpy as jnp

    ctx.jax, ctx.jnp = jax, jnp


def strata(tier):
    return [f"{mode} {how} {k}" for mode in ("jit", "mixed", "closure") for how in ("any", "pd") for k in (1, 1, 2, 3)] + [
        f"eager {how} {k}" for how in ("any", "pd") for k in (1, 2, 3) for _ in range(6)
    ] + [f"select {k} 1" for k in MATRIX_KINDS] + [f"number {k} 1" for k in MATRIX_KINDS] + [
        f"abstract {k} 1" for k in MATRIX_KINDS
    ]


def dense(B, m, r):
    return B.dense(r) if isinstance(r, m.AbstractMatrix) else r


def kind_of(m, r):
    return type(r).__name__ if isinstance(r, m.AbstractMatrix) else "array"


def blocked(e):
    """LAB cannot unstack under B.jit: the number of parts is traced there."""
    import traceback

    return any(t.name == "_unstack" and "lab" in t.filename for t in traceback.extract_tb(e.__traceback__))


def run(ctx, rng, name, rep):
    mode, how, k = name.split(" ")
    if mode == "select":
        return select(ctx, rng, how)
    if mode == "number":
        return number(ctx, rng, how)
    if mode == "abstract":
        for _ in range(8):
            abstract(ctx, rng, how)
        return
    B, m, jnp = ctx.B, ctx.m, ctx.jnp
    dtype = str(rng.choice(["f8", "f8", "f8", "f4"]))
    prog = Program(ctx, rng, how, dtype, int(k), allow=lambda s: s.name != "sample")
    if not prog.steps or not prog.raws:
        return
    desc = f"[{mode}] {prog.desc}"
    key = "+".join(s.name for s in prog.steps)
    zd = {"f8": jnp.float64, "f4": jnp.float32}[dtype] if rng.random() < 0.5 else None

    # What NumPy does.

    def numpy_run(raws):
        cache = B.ControlFlowCache()
        with cache:
            out = prog.run(prog.build(raws))
        return out, {a: np.asarray(v) for a, v in cache.outcomes.items()}, [np.asarray(dense(B, m, o)).dtype for o in out]

    r = ctx.call("numpy", lambda: numpy_run(prog.raws), desc, prog.kinds(), may_reject=lambda e: True)
    if r is SKIP:
        return
    out, outcomes, dtypes = r
    if any(s.name.startswith("scalar") for s in prog.steps) and dtype == "f4":
        dtypes = [None] * len(dtypes)  # with Python's numbers, the two promote differently
    types = [kind_of(m, o) for o in out]

    mask = rng.random(len(prog.raws)) < (0.5 if mode == "mixed" else 1.1)
    if not np.any(mask):
        mask[rng.integers(len(mask))] = True

    def wrap(raws):
        return [jnp.asarray(x) if t else x for x, t in zip(raws, mask)]

    def judge(what, res, refs):
        for i, (s, o, ref) in enumerate(zip(prog.steps, res, refs)):
            if ref is not None and not ctx.close(f"{what}:{s.name}", o, ref[0], ref[1], f"step {i} of {desc}"):
                return False
        return True

    refs = prog.refs(prog.build(prog.raws))
    if refs is None:
        return
    # Eager.
    res = ctx.call(f"eager:{key}", lambda: prog.run(prog.build(wrap(prog.raws), zd)), desc, prog.kinds(), nkron=99)
    if res is SKIP or not judge("eager", res, refs):
        return
    ctx.event("eager_compared", f"eager|{key}|" + "|".join(skeleton(x.desc) for x in prog.bases))
    for s, o, t, d in zip(prog.steps, res, types, dtypes):
        if kind_of(m, o) != t:
            ctx.fail(f"eager:{s.name}:TYPE", f"{desc}: {kind_of(m, o)} for JAX arrays, {t} for NumPy arrays")
        if d is not None and np.asarray(dense(B, m, o)).dtype != d:
            ctx.fail(f"eager:{s.name}:DTYPE", f"{desc}: {np.asarray(dense(B, m, o)).dtype} for JAX arrays, {d} for NumPy arrays")
    if mode == "eager":
        for s, o in zip(prog.steps, res):
            d = ctx.call("to_numpy", lambda: B.to_numpy(o), desc, ("result",), nkron=99)
            if d is not SKIP and kind_of(m, o) != "array" and not isinstance(d, (np.ndarray, np.generic)):
                ctx.fail("to_numpy:TYPE", f"{desc}: to_numpy gives {type(d).__name__}")
        return

    # Compiled.
    static = {}
    if mode == "closure":
        # Some operands live outside of the compiled function.
        seen, pos, spans = set(), 0, []
        for x in prog.bases:
            num = len(leaves(x.obj, [], seen))
            spans.append((pos, pos + num))
            pos += num
        for i in range(len(prog.bases)):
            if rng.random() < 0.5:
                static[i] = prog.build(wrap(prog.raws), zd)[i]
        dyn = [j for i, (a, b) in enumerate(spans) if i not in static for j in range(a, b)]
        if not dyn or not static:
            return
    else:
        dyn = [j for j in range(len(prog.raws)) if mask[j]]
    seen_types = []

    def f(*xs):
        raws = list(prog.raws)
        for j, x in zip(dyn, xs):
            raws[j] = x
        objs = prog.build(raws, zd)
        for i, o in static.items():
            objs[i] = o
        out = prog.run(objs)
        seen_types.append([kind_of(m, o) for o in out])
        return tuple(dense(B, m, o) for o in out)

    jitted = B.jit(f)
    args = lambda raws: [jnp.asarray(raws[j]) for j in dyn]  # noqa
    res = ctx.call(f"jit:{key}", lambda: jitted(*args(prog.raws)), desc, prog.kinds(), nkron=99, may_reject=blocked)
    if res is SKIP or not judge("jit", res, refs):
        return
    ctx.event("compiled_compared", f"{mode}|{key}|" + "|".join(skeleton(x.desc) for x in prog.bases))
    for ts in seen_types:
        if ts != types:
            ctx.fail("jit:TYPE", f"{desc}: {ts} when compiled, {types} for NumPy arrays")
    for s, o, d in zip(prog.steps, res, dtypes):
        if d is not None and o.dtype != d:
            ctx.fail(f"jit:{s.name}:DTYPE", f"{desc}: {o.dtype} when compiled, {d} for NumPy arrays")
    # Again, with other numbers.
    for _ in range(2):
        new = remap(prog.raws, rng)
        new = [a if j in dyn else b for j, (a, b) in enumerate(zip(new, prog.raws))]
        r = ctx.call("numpy", lambda: numpy_run(new), desc, prog.kinds(), may_reject=lambda e: True)
        if r is SKIP:
            continue
        same = r[1].keys() == outcomes.keys() and all(np.array_equal(v, outcomes[a]) for a, v in r[1].items())
        refs2 = prog.refs(prog.build(new))
        if not same or refs2 is None:
            ctx.event("recalls_out_of_pattern")
            continue
        res = ctx.call(f"recall:{key}", lambda: jitted(*args(new)), desc + " (again)", prog.kinds(), nkron=99)
        if res is SKIP or not judge("recall", res, refs2):
            return
        ctx.event("recalls_compared")
    # What was outside is still usable, and unharmed.
    if static:
        for i, o in static.items():
            for path, a in arrays(o, m, kind=ctx.jax.core.Tracer):
                ctx.fail("closure:LEAK", f"{desc}: {path} of an operand outside the compiled function is now a tracer")
                return
        objs = prog.build(wrap(prog.raws), zd)
        for i, o in static.items():
            objs[i] = o
        res = ctx.call(f"after:{key}", lambda: prog.run(objs), desc + " (eagerly afterwards)", prog.kinds(), nkron=99)
        if res is not SKIP and judge("after", res, refs):
            ctx.event("outside_reused")
    ctx.sample(desc[:300])


def select(ctx, rng, kind):
    """Selections: the indices (for constant and zero matrices also masks) are traced, and others
    the next time."""
    B, m, jnp = ctx.B, ctx.m, ctx.jnp
    g = Gen(rng, m, str(rng.choice(["f8", "f4"])), layouts=False)
    g.no_zero = True  # every part is made of arrays
    n = g.dim(5)
    a = g.matrix(kind, n, n if kind in SQUARE_ONLY or rng.random() < 0.5 else g.dim(5), g.batch(2))
    raws = [np.asarray(x) for x in leaves(a.obj)]
    zd = jnp.float64 if g.dtype == "f8" else jnp.float32
    sub = a.val.shape[-1] == a.val.shape[-2] and rng.random() < 0.3
    ax = int(rng.integers(-a.val.ndim, a.val.ndim)) if not sub else -1
    L = a.val.shape[ax]
    mask = rng.random() < 0.4
    count = int(rng.integers(1, L + 1))

    def chosen():
        if mask:
            x = np.zeros(L, bool)
            x[rng.permutation(L)[:count]] = True
            return x
        if sub:
            return np.sort(rng.permutation(L)[:count])
        return rng.integers(0, L, size=count)

    sel = chosen()
    desc = f"{'submatrix' if sub else 'take'}({a.desc}, {sel.tolist()}, axis={ax}) dtype={g.dtype}"
    key = f"{'submatrix' if sub else 'take'}({kind})"
    f = (lambda x, i: B.submatrix(x, i)) if sub else (lambda x, i: B.take(x, i, axis=ax))

    def ref(i):
        r = (lambda x: x[..., i, :][..., :, i]) if sub else (lambda x: np.compress(i, x, axis=ax) if mask else np.take(x, i, axis=ax))
        return r(a.val), 1e4 * EPS[g.dtype] * r(a.mag)

    def build(xs):
        return rebuild(m, a.obj, iter(xs), None, zd)

    def judge(what, res, i):
        return res is not SKIP and ctx.close(f"{what}:{key}", res, *ref(i), desc + (f" again with {i.tolist()}" if i is not sel else ""))

    base = ctx.call(f"numpy:{key}", lambda: f(a.obj, sel), desc, (kind,), nkron=99)
    if base is SKIP or not judge("numpy", base, sel):
        return
    xs = [jnp.asarray(x) for x in raws]
    how = rng.integers(3)
    eager = ctx.call(f"eager:{key}", lambda: f(build(xs), [sel, jnp.asarray(sel), sel.tolist()][how]), desc, (kind,), nkron=99)
    if not judge("eager", eager, sel):
        return
    if kind_of(m, eager) != kind_of(m, base):
        ctx.fail(f"eager:{key}:TYPE", f"{desc}: {kind_of(m, eager)} for JAX arrays, {kind_of(m, base)} for NumPy arrays")
    ctx.event("eager_compared", f"select|{key}|{skeleton(a.desc)}|{mask}{how}")
    if mask and (kind not in ("const", "zero") or ax < -2 or 0 <= ax < a.val.ndim - 2):
        # JAX wants concrete masks, so they stay outside of the compiled function.
        jitted = B.jit(lambda *v: dense(B, m, f(build(v), sel)))
        if xs:
            judge("jit", ctx.call(f"jit:{key}", lambda: jitted(*xs), desc, (kind,), nkron=99), sel)
        return
    types = []

    def g2(i, *v):
        r = f(build(v), i)
        types.append(kind_of(m, r))
        return dense(B, m, r)

    jitted = B.jit(g2)
    for _ in range(2):
        if not judge("jit", ctx.call(f"jit:{key}", lambda: jitted(jnp.asarray(sel), *xs), desc, (kind,), nkron=99), sel):
            return
        sel = chosen()
    if set(types) != {kind_of(m, base)}:
        ctx.fail(f"jit:{key}:TYPE", f"{desc}: {types} when compiled, {kind_of(m, base)} for NumPy arrays")
    ctx.event("selections_traced", f"select|{key}|{skeleton(a.desc)}|{mask}{ax}")


def abstract(ctx, rng, kind):
    """While a function is compiled, matrices around its arguments know that they are abstract, and
    their shape and data type. No data type is known wrongly."""
    B, m, jnp = ctx.B, ctx.m, ctx.jnp
    g = Gen(rng, m, str(rng.choice(["f8", "f4"])), layouts=False)
    n = g.dim(5)
    a = g.matrix(kind, n, n if kind in SQUARE_ONLY or rng.random() < 0.5 else g.dim(5), g.batch(2))
    raws = [np.asarray(x) for x in leaves(a.obj)]
    zd = jnp.float64 if g.dtype == "f8" else jnp.float32
    mask = rng.random(len(raws)) < 0.5
    if not np.any(mask):
        zd = {"f8": np.float64, "f4": np.float32}[g.dtype]  # (JAX makes abstract identity matrices)
    asked = {"isabstract": bool(np.any(mask)), "shape": a.val.shape, "batch": a.val.shape[:-2], "rank": a.val.ndim}
    got = {}

    def f(*xs):
        it = iter(xs)
        o = rebuild(m, a.obj, iter([next(it) if t else x for x, t in zip(raws, mask)]), None, zd)
        try:
            got["isabstract"] = bool(B.isabstract(o))
        except LookupError:
            got["isabstract"] = "not supported"
        got["shape"] = tuple(int(d) for d in B.shape(o))
        got["batch"] = tuple(int(d) for d in B.shape_batch(o))
        got["rank"] = int(B.rank(o))
        got["dtype"] = np.dtype(B.dtype(o))
        return sum(jnp.sum(x) for x in xs) if xs else jnp.zeros(())

    desc = f"{a.desc} with traced {np.flatnonzero(mask).tolist()} of {len(raws)} arrays dtype={g.dtype}"
    r = ctx.call(f"abstract({kind})", lambda: ctx.jax.jit(f)(*[jnp.asarray(x) for x, t in zip(raws, mask) if t]), desc, (kind,))
    if r is SKIP:
        return
    asked["dtype"] = np.dtype({"f8": np.float64, "f4": np.float32}[g.dtype])
    for k, v in asked.items():
        if got[k] != v:
            ctx.fail(f"abstract({kind}):{k}", f"{desc}: {k} is {got[k]!r}, expected {v!r}")
    ctx.event("abstract_inspected", f"{kind}|{skeleton(a.desc)}|{mask.tolist()}")


def number(ctx, rng, kind):
    """Numbers that scale, shift and fill are traced, too, and others the next time."""
    B, m, jnp = ctx.B, ctx.m, ctx.jnp
    g = Gen(rng, m, str(rng.choice(["f8", "f4"])), layouts=False)
    n = g.dim(5)
    a = g.matrix(kind, n, n if kind in SQUARE_ONLY or rng.random() < 0.5 else g.dim(5), g.batch(2))
    raws = [np.asarray(x) for x in leaves(a.obj)]
    dt = {"f8": np.float64, "f4": np.float32}[g.dtype]
    zd = {"f8": jnp.float64, "f4": jnp.float32}[g.dtype]
    r, k = a.val.shape[-2:]
    ops = {
        "c*x": (lambda x, c: c * x, lambda x, c: c * x), "x*c": (lambda x, c: x * c, lambda x, c: x * c),
        "x/c": (lambda x, c: x / c, lambda x, c: x / c), "x+c": (lambda x, c: x + c, lambda x, c: x + c),
        "c+x": (lambda x, c: c + x, lambda x, c: c + x), "x-c": (lambda x, c: x - c, lambda x, c: x - c),
        "c-x": (lambda x, c: c - x, lambda x, c: c - x),
        "x*Constant": (lambda x, c: x * m.Constant(c, r, k), lambda x, c: x * c),
        "Constant*x": (lambda x, c: m.Constant(c, r, k) * x, lambda x, c: x * c),
        "x+Constant": (lambda x, c: x + m.Constant(c, r, k), lambda x, c: x + c),
        "Constant-x": (lambda x, c: m.Constant(c, r, k) - x, lambda x, c: c - x),
        "x@Constant": (lambda x, c: x @ m.Constant(c, k, 3), lambda x, c: x @ np.full((k, 3), c, x.dtype)),
        "Constant@x": (lambda x, c: m.Constant(c, 3, r) @ x, lambda x, c: np.full((3, r), c, x.dtype) @ x),
        "Constant(1x1)*x": (lambda x, c: m.Constant(c, 1, 1) * x, lambda x, c: c * x),
        "fill_diag": (lambda x, c: x @ B.fill_diag(c, k), lambda x, c: x * c),
    }
    nms = list(ops)
    for nm in (nms[rng.integers(len(nms))] for _ in range(2)):
        f, ref = ops[nm]
        cs = [dt(c) for c in rng.permutation([1.0, 2.0, -1.0, 0.5, rng.uniform(0.5, 2), 0.0])]
        cs = [c for c in cs if c or "/" not in nm][:3]
        desc = f"{nm} for {a.desc} dtype={g.dtype}"
        key = f"{nm}({kind})"

        def judge(what, res, c):
            if res is SKIP:
                return False
            t = 1e4 * EPS[g.dtype] * (ref(a.mag, abs(c)) if "-" not in nm else a.mag + abs(c))
            return ctx.close(f"{what}:{key}", res, ref(a.val, c), t + 1e-30, f"{desc} c={c}")

        base = ctx.call(f"numpy:{key}", lambda: f(a.obj, cs[0]), desc, (kind,), nkron=99)
        if base is SKIP or not judge("numpy", base, cs[0]):
            continue
        xs = [jnp.asarray(x) for x in raws]
        build = lambda v: rebuild(m, a.obj, iter(v), None, zd)  # noqa
        eager = ctx.call(f"eager:{key}", lambda: f(build(xs), jnp.asarray(cs[0])), desc, (kind,), nkron=99)
        if not judge("eager", eager, cs[0]):
            continue
        if cs[0] and kind_of(m, eager) != kind_of(m, base):
            ctx.fail(f"eager:{key}:TYPE", f"{desc}: {kind_of(m, eager)} for JAX arrays, {kind_of(m, base)} for NumPy arrays")
        ctx.event("eager_compared", f"number|{key}|{skeleton(a.desc)}")
        types = []

        def g2(c, *v):
            res = f(build(v), c)
            types.append(kind_of(m, res))
            return dense(B, m, res)

        jitted = B.jit(g2)
        for i, c in enumerate(cs):
            res = ctx.call(f"jit:{key}", lambda: jitted(jnp.asarray(c), *xs), desc, (kind,), nkron=99, may_reject=blocked)
            if not judge("jit", res, c):
                break
            if i == 0 and res.dtype != np.asarray(dense(B, m, eager)).dtype:
                ctx.fail(f"jit:{key}:DTYPE", f"{desc}: {res.dtype} when compiled, {np.asarray(dense(B, m, eager)).dtype} eagerly")
            ctx.event("numbers_traced", f"{key}|{skeleton(a.desc)}")
        else:
            if cs[0] and types[0] != kind_of(m, eager):
                ctx.fail(f"jit:{key}:TYPE", f"{desc}: {types} when compiled, {kind_of(m, eager)} eagerly")
