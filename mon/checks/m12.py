"""M12: results depend on what the operands are, not on what was done with them before."""

import numpy as np

from ..common import EPS, skeleton
from ..core import SKIP
from ..gen import Gen, MATRIX_KINDS
from ..genpd import GenPD, POperand, cond as cond_of
from ..ops import as_item, instance, is_tb, pool
from ..pdops import derive, inv_instance, inv_pool, pd_instance, pd_pool
from ..walk import objects

ID = "M12"
REPS = {"quick": 500, "thorough": 10000}
BUDGET = {"quick": 100, "thorough": 750}
MIN_EVENTS = {t: {"histories_compared": 4000, "warm_caches": 2000} for t in REPS}
RULE = (
    "one case = a random program executed with a history (operations in between, every cache of operands, parts and results"
    " filled at random moments, operations repeated), after which two to four of its results are computed anew on freshly"
    " generated identical operands by a program reduced to what the result needs. Type, nested types, shape, data type and"
    " dense value must be identical (bitwise for elementary operations, up to rounding amplified by the condition number for"
    " inverses and factorisations), and the same again when the operation is repeated in the old history. Distinct: distinct"
    " (operation, operand types incl. nested, caches filled at that moment)"
)
ASSUMPTIONS = ["sampling starts from equal random states", "the jitter LAB adds before a Cholesky decomposition is set to zero"]


def setup(ctx):
    ctx.B.epsilon = 0


def strata(tier):
    return MATRIX_KINDS[:-1] + ["mixed"] * 6 + ["pd"] * 6 + ["inv"] * 4


class Step:
    __slots__ = ("name", "desc", "kinds", "run", "args", "tol", "item")

    def __init__(self, name, desc, kinds, run, args, tol=None):
        self.name, self.desc, self.kinds, self.run, self.args, self.tol = name, desc, kinds, run, args, tol
        self.item = None  # index among the values, if the result is operated on again


def make_pool(ctx, name, seed):
    """The same operands every time: (generator, operands, auxiliary)."""
    g, items, cut = _make_pool(ctx, name, seed)
    # Without effect, but not zero. (With float32, LAB's Cholesky decomposition gives float64 if it is not zero.)
    ctx.B.epsilon = 1e-300 if g.dtype == "f8" else 0
    return g, items, cut


def _make_pool(ctx, name, seed):
    rng = np.random.default_rng(seed)
    m = ctx.m
    if name == "pd":
        g = GenPD(rng, m, str(rng.choice(["f8", "f8", "f8", "f4"])))
        a, b = pd_pool(g, kinds=("dense", "diag", "wb", "kron", "lr"))
        return g, a + b, len(a)
    if name == "inv":
        g = GenPD(rng, m, "f8")
        a, b = inv_pool(g, 2)
        return g, a + b, len(a)
    g = Gen(rng, m, str(rng.choice(["f8", "f8", "f8", "f4", "i8"])))
    items = pool(g, 5, kinds=MATRIX_KINDS if name == "mixed" else [name, name, "dense", "const"])
    if g.chance(0.3):
        items.append(items[0])
    return g, items, len(items)


def types(x, m, depth=0):
    t = type(x).__name__
    if not isinstance(x, m.AbstractMatrix) or depth > 4:
        return "array" if isinstance(x, (np.ndarray, np.generic, float, int)) else t
    d = vars(x)
    parts = [types(d[k], m, depth + 1) for k in ("diag", "lr", "left", "right", "mat") if d.get(k) is not None]
    return f"{t}({','.join(parts)})"


def filled(objs, m):
    out = []
    for p, o in objects(list(objs), m):
        for k in ("dense", "cholesky", "schur"):
            if vars(o).get(k) is not None:
                out.append(f"{type(o).__name__}.{k}")
    return out


def warm(ctx, g, objs, pd):
    """Fill caches of a random object or of one of its parts. (Operations that assume a
    positive-definite operand are only used on such operands.)"""
    B, m = ctx.B, ctx.m
    cands = [o for _, o in objects(list(objs), m)]
    if not cands:
        return
    o = g.pick(cands)
    what = g.pick(["dense", "dense", "dense", "str", "schur", "shape", "inv"] + ["cholesky", "pd_inv", "logdet"] * pd)
    if what in ("str", "shape"):
        str(o) if what == "str" else (B.shape(o), B.dtype(o))
        return
    # Whether an operation succeeds on an arbitrary part is not the question here.
    try:
        getattr(B, what)(o)
    except Exception:
        ctx.event("warmups_refused")


def attempt(f):
    """A refusal is an outcome too (whether it is justified is judged by other properties)."""
    try:
        return f(), None
    except Exception as e:
        return None, type(e).__name__


def outcome(ctx, step, objs):
    return attempt(lambda: step.run(*objs))


def compare(ctx, step, desc, a, b):
    """a: with history, b: without."""
    B, m = ctx.B, ctx.m
    if a[1] != b[1]:
        ctx.fail(f"{step.name}:OUTCOME", f"{desc}: with history {a[1] or 'a result'}, without {b[1] or 'a result'}")
        return
    if a[1] is not None:
        ctx.event("refusals_compared")
        return
    x, y = a[0], b[0]
    tx, ty = types(x, m), types(y, m)
    if tx != ty:
        ctx.fail(f"{step.name}:TYPE", f"{desc}: with history {tx}, without {ty}")
        return
    if isinstance(x, m.AbstractMatrix):
        ix = (tuple(map(int, B.shape(x))), str(B.dtype(x)), str(x))
        iy = (tuple(map(int, B.shape(y))), str(B.dtype(y)), str(y))
        if ix != iy:
            ctx.fail(f"{step.name}:SHAPE", f"{desc}: with history {ix}, without {iy}")
            return
        dx, dy = attempt(lambda: B.dense(x)), attempt(lambda: B.dense(y))
        if dx[1] != dy[1]:
            ctx.fail(f"{step.name}:OUTCOME", f"{desc}: dense of the result with history {dx[1] or 'works'}, without {dy[1] or 'works'}")
        if dx[1] or dy[1]:
            return
        x, y = dx[0], dy[0]
        if isinstance(x, m.AbstractMatrix) or isinstance(y, m.AbstractMatrix):
            ctx.fail(f"{step.name}:DENSE", f"{desc}: dense gave matrices")
            return
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape or x.dtype != y.dtype:
        ctx.fail(f"{step.name}:SHAPE", f"{desc}: with history {x.shape} {x.dtype}, without {y.shape} {y.dtype}")
        return
    ctx.event("histories_compared")
    if np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
        ctx.events["bitwise_equal"] += 1
        return
    if step.tol is None:
        err = np.max(np.abs(x - y))
        ctx.fail(f"{step.name}:VALUE", f"{desc}: the value depends on the history: differs by {err}, largest entry {np.max(np.abs(y))}")
        return
    with np.errstate(all="ignore"):
        bad = np.abs(x - y) > step.tol * (np.max(np.abs(y), initial=0) + 1e-290)
    if np.any(bad) or np.any(np.isnan(x) != np.isnan(y)):
        ctx.fail(f"{step.name}:VALUE", f"{desc}: the value depends on the history: differs by {np.nanmax(np.abs(x - y))}, tolerance"
                 f" {step.tol} of {np.max(np.abs(y))}")


def run(ctx, rng, name, rep):
    B, m = ctx.B, ctx.m
    seed = int(rng.integers(2**40))
    g, items, cut = make_pool(ctx, name, seed)
    fresh = [x.obj for x in make_pool(ctx, name, seed)[1]]
    assert len(fresh) == len(items) and all(type(a) is type(b.obj) for a, b in zip(fresh, items))
    values = [x.obj for x in items]  # with history
    base = len(values)
    aux = items[cut:]
    main = items[:cut]
    where = {}
    for i, x in enumerate(items):
        where.setdefault(id(x), i)
    steps, outcomes, notes = [], [], []
    for _ in range(int(rng.integers(4, 9))):
        while g.chance(0.5):
            warm(ctx, g, values[:cut] if name == "pd" else values, name == "pd")
        st = next_step(ctx, g, name, main, aux, where)
        if st is None:
            continue
        objs = [values[i] for i in st.args]
        caches = filled(objs, m)
        ctx.events["warm_caches"] += len(caches)
        res = outcome(ctx, st, objs)
        ctx.event("steps", f"{st.name}|{skeleton(st.desc)[:70]}|{'+'.join(sorted(set(caches)))[:80]}")
        steps.append(st)
        outcomes.append(res)
        if res[1] is None and st.item is not None and isinstance(res[0], m.AbstractMatrix) and len(values) < 14:
            x = st.item(res[0])
            st.item = len(values)
            where[id(x)] = len(values)
            values.append(res[0])
            main.append(x)
        else:
            st.item = None
    if not steps:
        return
    by_item = {st.item: k for k, st in enumerate(steps) if st.item is not None}
    todo = sorted(set(int(k) for k in rng.integers(0, len(steps), size=3)) | {len(steps) - 1})
    for k in todo:
        again = outcome(ctx, steps[k], [values[i] for i in steps[k].args])
        desc = f"{steps[k].desc[:500]} (program {[s.name for s in steps]}, caches {filled([values[i] for i in steps[k].args], m)[:6]})"
        compare(ctx, steps[k], "repeated: " + desc, again, outcomes[k])
        # Without history: identical operands, and only what this result needs.
        new = [x.obj for x in make_pool(ctx, name, seed)[1]] if len(todo) > 1 else fresh
        memo = {}

        def value(i):
            if i < base:
                return new[i]
            if i not in memo:
                st = steps[by_item[i]]
                memo[i] = st.run(*[value(j) for j in st.args])
            return memo[i]

        args = [value(i) for i in steps[k].args]
        compare(ctx, steps[k], desc, outcomes[k], outcome(ctx, steps[k], args))
        ctx.sample(desc)
        if ctx.violations:
            return


def next_step(ctx, g, name, main, aux, where):
    B, m = ctx.B, ctx.m
    if name in ("pd", "inv") and g.chance(0.4):
        x = g.pick(main)
        nm, f, val, _ = derive(B, m, g, x, pd=name == "pd")
        c = cond_of(val)
        if val.size > 300 or not c < 1e3 or (nm in ("shift", "mulself") and (x.kind == "kron" or x.cond * c > 1e6)):
            return None
        st = Step(nm, f"{nm}({x.desc})", (x.kind,), f, [where[id(x)]])
        st.item = lambda o: POperand(
            o, val, np.abs(val) + x.mag.max(), st.desc, x.kind, [], x.dtype,
            cond=x.cond * max(1.0, c) * 10 if nm in ("shift", "mulself") else x.cond,
        )
        return st
    if name == "pd":
        inst = pd_instance(B, m, g, main, aux)
        if inst is None:
            return None
        eps = EPS["f4"] if main[0].dtype == "f4" else EPS["f8"]
        cond = max(getattr(x, "cond", 1.0) for x in main)
        return Step(inst.name, inst.desc, inst.kinds, inst.run, [where[id(x)] for x in inst.args], 1e4 * eps * cond**2)
    if name == "inv":
        inst = inv_instance(B, m, g, main, aux)
        if inst is None:
            return None
        return Step(inst.name, inst.desc, inst.kinds, inst.run, [where[id(x)] for x in inst.args],
                    1e4 * EPS["f8"] * inst.args[0].cond)
    inst = instance(B, g, main)
    if inst is None:
        return None
    mag = inst.magnitude()
    if np.size(mag) == 0 or np.size(mag) > 2000 or np.max(mag) > 1e15:
        return None
    st = Step(inst.name, inst.desc, inst.kinds, inst.run, [where[id(x)] for x in inst.args])
    if inst.matrix and np.ndim(inst.value()) >= 2:
        st.item = lambda o: as_item(o, inst, B, m)
    return st
