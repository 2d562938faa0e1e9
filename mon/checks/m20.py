"""M20: gradients through structured operations are the gradients of the dense ones."""

import numpy as np

from ..common import skeleton
from ..core import SKIP
from ..gen import MATRIX_KINDS
from ..programs import Program, direction
from .m19 import blocked, dense, kind_of

ID = "M20"
JAX = True
NWORKERS = 8
CASE_TIMEOUT = 200
REPS = {"quick": 28, "thorough": 500}
BUDGET = {"quick": 150, "thorough": 780}
MIN_EVENTS = {t: {"derivatives_compared": 250, "entries_differentiated": 3000} for t in REPS}
RULE = (
    "one case = a program of one to three operations on shared operands around JAX arrays: every step is projected onto a random"
    " vector, and the reverse-mode gradient with respect to all numbers in all operands (through all caches and shared factors)"
    " must be finite and agree, along directions that keep equal numbers equal, with Richardson-extrapolated differences of what"
    " the program denotes (NumPy). Forward mode and gradients of compiled functions are compared too."
    " Distinct: distinct (mode, operations, operand types)"
)
ASSUMPTIONS = ["JAX on the CPU with 64 bits enabled", "no absolute value or square root at zero"]


def setup(ctx):
    ctx.B.epsilon = 0
    import jax
    import jax.numpy as jnp

    ctx.jax, ctx.jnp = jax, jnp


def strata(tier):
    return [f"{mode} {how} {k}" for mode in ("reverse", "reverse", "reverse", "forward", "jit") for how in ("any", "pd", "pd") for k in (1, 1, 2, 3)] + [
        f"reverse zeros:{a}:{b} 1"
        for a, b in [("const", k) for k in ("diag", "wb", "lr", "kron", "dense", "lt")]
        + [("diag", k) for k in ("wb", "lr", "kron", "dense", "lt")]
        + [("any", "any")] * 9
    ]


def smooth(s):
    return s.name not in ("sample", "cast", "ones", "zeros") and not (s.name == "schur")


def run(ctx, rng, name, rep):
    mode, how, k = name.split(" ")
    how, _, given = how.partition(":")
    B, m, jax, jnp = ctx.B, ctx.m, ctx.jax, ctx.jnp
    kinds, allow = MATRIX_KINDS, smooth
    if how == "zeros":
        # One of two operands is zero, but could be something else.
        kinds = [str(rng.choice(MATRIX_KINDS[1:-1])) if k == "any" else k for k in given.split(":")]
        ops = ("add", "sub", "mul", "div", "matmul", "matmul_diag") if rng.random() < 0.8 else None
        allow = lambda s: smooth(s) and (s.name in ops if ops else s.name != "abs") and len({x.kind for x in s.args}) == 2 and (  # noqa
            all(x.kind in kinds for x in s.args) or rng.random() < 0.1
        )
    prog = Program(ctx, rng, how, "f8", int(k), kinds=kinds, allow=allow)
    raws = [np.asarray(r, float) for r in prog.raws]
    if not prog.steps or not raws or sum(r.size for r in raws) > 400:
        return
    desc = f"[{mode}] {prog.desc}"
    free, zeros = prog.free(), False
    if free and (how == "zeros" or rng.random() < 0.35) and all(s.name != "abs" for s in prog.steps):
        # Zeros are not special for sums and products.
        whole = int(rng.choice(free)) if how == "zeros" else None
        for i in free:
            if i == whole:
                raws[i] = np.zeros_like(raws[i])
            elif how == "zeros":
                continue
            elif rng.random() < 0.6 and raws[i].size:
                raws[i] = zeroed(raws[i], rng)
        desc += " with zeros"
        zeros = True
    key = "+".join(s.name for s in prog.steps)
    zd = jnp.float64
    refs = prog.refs(prog.build(raws))
    if refs is None:
        return
    use = [i for i, r in enumerate(refs) if r is not None]
    if not use:
        return
    for i in use:
        # The absolute value is not differentiable at zero.
        if prog.steps[i].name == "abs" and np.any(np.abs(refs[i][0]) < 1e-6):
            vals = refs[i][0]
            if np.any((np.abs(vals) < 1e-6) & (vals != 0)):
                return
    ws = [rng.standard_normal(r[0].shape) if r is not None else None for r in refs]

    def f(*xs):
        out = prog.run(prog.build(xs, zd))
        return sum(jnp.sum(jnp.asarray(dense(B, m, out[i])) * ws[i]) for i in use)

    def ref(t, d):
        r = prog.refs(prog.build([a + t * b for a, b in zip(raws, d)]))
        if r is None:
            return None
        return sum(np.sum(r[i][0] * ws[i]) for i in use)

    # Differentiable at all? NumPy has to run it.
    if ctx.call("numpy", lambda: [dense(B, m, o) for o in prog.run(prog.build(raws))], desc, prog.kinds(), may_reject=lambda e: True) is SKIP:
        return
    xs = [jnp.asarray(r) for r in raws]
    ds = [direction(raws, rng) for _ in range(2)]
    if zeros:
        # Sums of low-rank matrices compare columns and look for cancellation: there zeros have to stay zeros.
        with B.ControlFlowCache() as cache:
            prog.run(prog.build(raws))
        many = ("lr", "wb", "const", "kron", "res", "scalar")
        zeros = not cache.outcomes or all(sum(x.kind in many for x in s.args) < 2 for s in prog.steps)
    if zeros:
        for d in ds:
            for i in free:
                d[i] = np.where(raws[i] == 0, rng.standard_normal(raws[i].shape), d[i])
    if mode == "forward":
        got = []
        for d in ds:
            r = ctx.call(f"forward:{key}", lambda: jax.jvp(f, tuple(xs), tuple(jnp.asarray(v) for v in d)), desc, prog.kinds(), nkron=99, may_reject=concrete)
            if r is SKIP:
                return
            got.append(float(r[1]))
    else:
        g = jax.grad(f, argnums=tuple(range(len(xs))))
        if mode == "jit":
            g = jitgrad(B, jax, f, len(xs))
        r = ctx.call(f"{mode}:{key}", lambda: g(*xs), desc, prog.kinds(), nkron=99, may_reject=lambda e: blocked(e) or concrete(e))
        if r is SKIP:
            return
        r = [np.asarray(v) for v in r]
        for x, v in zip(raws, r):
            if v.shape != x.shape:
                return ctx.fail(f"{mode}:{key}:SHAPE", f"{desc}: gradient of shape {v.shape} for {x.shape}")
            if not np.all(np.isfinite(v)):
                return ctx.fail(f"{mode}:{key}:FINITE", f"{desc}: the gradient is not finite: {v}")
        ctx.events["entries_differentiated"] += int(sum(v.size for v in r))
        got = [float(sum(np.sum(v * d) for v, d in zip(r, dd))) for dd in ds]
    for d, dg in zip(ds, got):
        h = 1e-3
        est = []
        for hh in (h, h / 2):
            a = [ref(s * hh, d) for s in (1, -1, 2, -2)]
            if any(v is None for v in a):
                return
            est.append((8 * (a[0] - a[1]) - (a[2] - a[3])) / (12 * hh))
        scale = abs(est[1]) + sum(float(np.sum(np.abs(refs[i][0] * ws[i]))) for i in use)
        err = abs(est[1] - est[0])
        if err > 1e-6 * scale:
            ctx.event("too_rough")
            continue
        tol = 10 * err + 1e-6 * scale + 1e-300
        if not np.isfinite(est[1]):
            continue
        if not abs(est[1] - dg) <= tol:
            return ctx.fail(f"{mode}:{key}:GRADIENT", f"{desc}: directional derivative {dg!r}, the dense program has {est[1]!r} (allowance {tol:.2g})")
        ctx.event("derivatives_compared", f"{mode}|{key}|" + "|".join(skeleton(x.desc) for x in prog.bases))
    ctx.sample(desc[:300])


def zeroed(x, rng):
    x = x.copy()
    how = rng.integers(4)
    if how == 0 or x.ndim == 0:
        x[...] = 0
    elif how == 1:
        x.reshape(-1)[rng.integers(x.size)] = 0
    elif how == 2 or x.ndim == 1:
        x[..., rng.integers(x.shape[-1])] = 0
    else:
        x[..., rng.integers(x.shape[-2]), :] = 0
    return x


def concrete(e):
    """Values are needed to align columns, which tracers do not have outside of B.jit."""
    return False


def jitgrad(B, jax, f, n):
    return B.jit(lambda *xs: jax.grad(f, argnums=tuple(range(n)))(*xs))
