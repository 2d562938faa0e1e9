"""M13: an operation that fails halfway leaves everything usable: nothing half-done is kept."""

import os

import numpy as np

from .. import env
from ..common import EPS, skeleton
from ..core import SKIP
from ..denote import audit
from ..faults import Fault, Injector, Interrupt
from ..gen import Gen, MATRIX_KINDS
from ..genpd import GenPD
from ..ops import instance, pool
from ..pdops import derive, inv_instance, inv_pool, pd_instance, pd_pool
from ..walk import Snapshot, objects
from .m11 import global_state
from .m12 import Step, attempt, compare, make_pool, next_step, warm

ID = "M13"
LEVEL = "fault_enumeration"
REPS = {"quick": 60, "thorough": 1000}
BUDGET = {"quick": 110, "thorough": 780}
MIN_EVENTS = {t: {"faults_injected": 8000, "retries_compared": 8000, "natural_failures": 200} for t in REPS}
RULE = (
    "one case = one operation on generated operands (some caches already filled), executed once to count the source lines of"
    " matrix and LAB it goes through, and then again and again on regenerated operands with an exception (an Exception or a"
    " KeyboardInterrupt) raised before the k-th of these lines: every k in the thorough tier and for short operations, a random"
    " sample of 24 in the quick tier. After each fault: nothing but empty caches changed, every reachable object passes the audit"
    " of M10, the global state is as before, and the retried operation and a different operation give what they give on fresh"
    " operands. Natural failures (singular or indefinite matrices, shapes that do not fit) are judged alike, incl. success after"
    " the cause is removed. Distinct: distinct (operation, operand types, faulting source line)"
)
ASSUMPTIONS = ["faults strike between source lines, not inside NumPy or the interpreter", "the Cholesky jitter of LAB is zero unless the case raises it"]


def setup(ctx):
    import lab

    ctx.B.epsilon = 0
    ctx.injector = Injector([os.path.join(env.REPO, "matrix"), os.path.dirname(lab.__file__)])


def strata(tier):
    return MATRIX_KINDS[:-1] + ["mixed"] * 4 + ["pd"] * 12 + ["inv"] * 6 + ["natural"] * 8


def run(ctx, rng, name, rep):
    if name == "natural":
        return natural(ctx, rng)
    B, m = ctx.B, ctx.m
    seed = int(rng.integers(2**40))
    warm_seed = int(rng.integers(2**40))
    warmth = int(rng.integers(0, 3))

    def fresh():
        g, items, cut = make_pool(ctx, name, seed)
        g.rng = np.random.default_rng(warm_seed)
        objs = [x.obj for x in items]
        for _ in range(warmth):
            warm(ctx, g, objs[:cut] if name == "pd" else objs, name == "pd")
        return g, items, cut, objs

    g, items, cut, objs = fresh()
    where = {}
    for i, x in enumerate(items):
        where.setdefault(id(x), i)
    main, aux = items[:cut], items[cut:]
    st = other = None
    for _ in range(30):
        st = st or next_step(ctx, g, name, main, aux, where)
        other = other or next_step(ctx, g, name, main, aux, where)
    if st is None or other is None:
        return
    inj = ctx.injector
    ref, exc, lines = inj.run(lambda: st.run(*[objs[i] for i in st.args]))
    ref = (ref, type(exc).__name__ if exc else None)
    _, _, _, objs = fresh()
    ref2 = attempt(lambda: other.run(*[objs[i] for i in other.args]))
    ctx.sample(f"{st.desc}: {lines} lines")
    if lines > 3000:
        return
    cap = 24 if ctx.tier == "quick" else 120
    ks = range(1, lines + 1) if lines <= cap else sorted(int(k) + 1 for k in rng.permutation(lines)[:cap])
    cond = max(getattr(x, "cond", 1.0) for x in items) ** 2 * 100
    for k in ks:
        _, _, _, objs = fresh()
        snap = Snapshot(objs, m)
        state = global_state(B)
        kind = Interrupt if k % 2 else Fault
        res, exc, _ = inj.run(lambda: st.run(*[objs[i] for i in st.args]), at=k, kind=kind)
        if inj.fired is None:
            continue
        desc = f"{st.desc[:400]} failing at {inj.fired} (line event {k} of {lines})"
        ctx.event("faults_injected", f"{st.name}|{skeleton(st.desc)[:50]}|{inj.fired}")
        if exc is None:
            # Swallowing a fault is fine as long as the result is right.
            compare(ctx, st, desc + ", which was swallowed", (res, None), ref)
        bad = snap.changes()
        if bad:
            ctx.fail(f"{st.name}:CHANGED", f"{desc}: {'; '.join(bad[:3])}")
        if global_state(B) != state:
            ctx.fail(f"{st.name}:GLOBAL", f"{desc}: the global state changed")
        for _, o in objects(objs, m):
            audit(ctx, o, desc, cond)
        order = [0, 1] if rng.random() < 0.5 else [1, 0]
        for which in order:
            s, r = ((st, ref), (other, ref2))[which]
            now = attempt(lambda: s.run(*[objs[i] for i in s.args]))
            ctx.event("retries_compared")
            compare(ctx, s, f"{s.name} after {desc}", now, r)
        if ctx.violations:
            return


def natural(ctx, rng):
    """Operations that fail by themselves: they fail again, and work once the cause is gone."""
    B, m = ctx.B, ctx.m
    B.epsilon = 1e-300
    g = GenPD(rng, m, "f8")
    n = int(rng.integers(2, 6))
    batch = g.batch(1)
    what = g.pick(["indefinite", "indefinite sum", "indefinite product", "singular middle", "singular diagonal", "jitter", "shapes"])
    fs = {k: getattr(B, k) for k in ("cholesky", "pd_inv", "logdet", "inv", "schur", "pd_schur", "dense", "root")}
    right = g.layout(rng.standard_normal((n, 2)))
    if what == "jitter":
        # Semi-definite: refused without jitter, accepted with it, as if never tried before.
        v = rng.integers(-3, 4, size=batch + (n, 1)).astype(float)
        v[..., 0, 0] = 1
        base = v @ np.swapaxes(v, -1, -2) - 1e-9 * np.eye(n)
        mk = {
            "dense": lambda: m.Dense(base.copy()),
            "wb": lambda: m.Woodbury(m.Diagonal(np.full(n, -1e-9)), m.LowRank(v.copy())),
        }[g.pick(["dense", "wb"])]
        op = g.pick(["cholesky", "logdet", "pd_inv", "iqf"])
        if op == "iqf" or (op != "cholesky" and "Woodbury" in type(mk()).__name__):
            op = "cholesky"
        x = mk()
        desc = f"{op}({type(x).__name__}{batch + (n, n)}), almost semi-definite"
        first = attempt(lambda: fs[op](x))
        again = attempt(lambda: fs[op](x))
        try:
            B.epsilon = 1e-6
            late = attempt(lambda: fs[op](x))
            ref = attempt(lambda: fs[op](mk()))
        finally:
            B.epsilon = 1e-300
        ctx.event("natural_failures", f"{what}|{op}|{desc}")
        s = Step(op, desc, (), None, [], 1e-9)
        compare(ctx, s, desc + " tried twice", again, first)
        if first[1] is not None:
            compare(ctx, s, desc + " after the jitter was raised", late, ref)
        return
    if what == "indefinite":
        a = g.layout(-np.eye(n) + 0.1 * rng.standard_normal(batch + (n, n)))
        mk = lambda: m.Dense(np.array(a))  # noqa
        ops = ["cholesky", "pd_inv", "logdet"]
    elif what == "indefinite sum":
        d = g.layout(rng.uniform(0.5, 2, size=batch + (n,)) * np.where(np.arange(n) == rng.integers(n), -9, 1))
        l = g.layout(0.3 * rng.standard_normal((n, 2)))
        mk = lambda: m.Woodbury(m.Diagonal(np.array(d)), m.LowRank(np.array(l)))  # noqa
        ops = ["cholesky", "root", "logdet", "pd_inv"]
    elif what == "indefinite product":
        a = g.layout(-np.eye(n) + 0.1 * rng.standard_normal(batch + (n, n)))
        c = np.eye(2) + 0.1
        mk = lambda: m.Kronecker(*[m.Dense(np.array(z)) for z in ((a, c) if n % 2 else (c, a))])  # noqa
        ops = ["cholesky", "logdet", "pd_inv"]
    elif what == "singular middle":
        mid = np.ones(batch + (2, 2))
        d = g.layout(rng.uniform(0.5, 2, size=n))
        l = g.layout(rng.standard_normal((n, 2)))
        mk = lambda: m.Woodbury(m.Diagonal(np.array(d)), m.LowRank(np.array(l), np.array(right), np.array(mid)))  # noqa
        ops = ["inv", "schur", "pd_inv", "pd_schur", "logdet"]
    elif what == "singular diagonal":
        a = np.ones(batch + (n, n))
        mk = lambda: m.Dense(np.array(a))  # noqa
        ops = ["inv"]
    else:
        d = g.layout(rng.uniform(0.5, 2, size=n))
        mk = lambda: m.Diagonal(np.array(d))  # noqa
        ops = ["add", "matmul", "solve"]
        y = m.Dense(rng.standard_normal((n + 1, n + 1)))
        fs = {"add": lambda x: x + y, "matmul": lambda x: x @ y, "solve": lambda x: B.solve(x, y)}
    x = mk()
    snap = Snapshot([x], m)
    state = global_state(B)
    op = g.pick(ops)
    desc = f"{op}({type(x).__name__}{batch}, {what})"
    first = attempt(lambda: fs[op](x))
    ctx.event("natural_failures", f"{what}|{op}|{len(batch)}")
    s = Step(op, desc, (), None, [], 1e-9)
    compare(ctx, s, desc + " tried twice", attempt(lambda: fs[op](x)), first)
    bad = snap.changes()
    if bad:
        ctx.fail(f"{op}:CHANGED", f"{desc}: {'; '.join(bad[:3])}")
    if global_state(B) != state:
        ctx.fail(f"{op}:GLOBAL", f"{desc}: the global state changed")
    compare(ctx, Step("dense", desc, (), None, []), f"dense after {desc}", attempt(lambda: B.dense(x)), attempt(lambda: B.dense(mk())))
    # The failure left nothing behind that other operations would use.
    good = {"Dense": "T", "Woodbury": "dense", "Diagonal": "inv", "Kronecker": "T"}[type(x).__name__]
    f = (lambda z: z.T) if good == "T" else getattr(B, good)
    compare(ctx, Step(good, desc, (), None, []), f"{good} after {desc}", attempt(lambda: f(x)), attempt(lambda: f(mk())))
    if type(x).__name__ == "Woodbury" and first[1] is not None:
        if vars(x).get("schur") is not None and op in ("schur", "pd_schur"):
            ctx.fail("schur:KEPT", f"{desc}: failed, but left a Schur complement behind")
