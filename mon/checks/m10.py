"""M10: every matrix object the library builds means what its type and attributes say."""

import numpy as np

from ..common import EPS
from ..core import SKIP
from ..denote import audit, registry
from ..gen import Gen
from ..genpd import GenPD, POperand, cond as cond_of
from ..ops import as_item, instance, pool
from ..pdops import derive, inv_instance, inv_pool, pd_instance, pd_pool

ID = "M10"
REPS = {"quick": 2400, "thorough": 30000}
BUDGET = {"quick": 110, "thorough": 800}
MIN_EVENTS = {t: {"objects_audited": 20000, "caches_audited": 3000} for t in REPS}
RULE = (
    "one case = a random program of 5 to 12 operations (arithmetic, selection, assembly; or factorisations, inverses and"
    " functionals of positive-definite operands). Every matrix object constructed meanwhile, by the library or by the"
    " harness, also intermediate ones, is recorded at construction and audited afterwards: documented attributes and their"
    " shapes, exact zeros of triangular matrices, rank bound, batch and matrix shape, and every filled cache (dense,"
    " cholesky, schur) against the matrix recomputed from the attributes. Distinct: distinct (type, types of its parts,"
    " filled caches, batch rank)"
)
ASSUMPTIONS = [
    "the meaning of a matrix is recomputed from its documented attributes with NumPy",
    "the jitter LAB adds before a Cholesky decomposition (B.epsilon) is set to zero",
]


def strata(tier):
    return ["int", "float", "pd", "inv"]


def setup(ctx):
    ctx.B.epsilon = 0.0
    registry(ctx.m)


def run(ctx, rng, name, rep):
    B = ctx.B
    reg = registry(ctx.m)
    del reg[:]
    trace = []
    if name == "pd":
        g = GenPD(rng, ctx.m, "f8")
        pds, outs = pd_pool(g)
        cond = derived_program(ctx, g, pds, outs, trace, pd=True)
        if ctx.violations:
            return
    elif name == "inv":
        g = GenPD(rng, ctx.m, "f8")
        xs, outs = inv_pool(g, 2)
        cond = derived_program(ctx, g, xs, outs, trace)
        if ctx.violations:
            return
    else:
        g = Gen(rng, ctx.m, "f8", styles=["int"] if name == "int" else ["normal", "sparse", "int", "ones"])
        items = pool(g, 6)
        if g.chance(0.4):
            items.append(items[0])
        for _ in range(int(rng.integers(5, 12))):
            inst = instance(B, g, items)
            if inst is None:
                break
            mag = inst.magnitude()
            if np.size(mag) == 0 or np.max(mag) > 2**46 or np.size(mag) > 2000:
                continue
            tb = ("tb",) if any("TiledBlocks" in type(x.obj).__name__ for x in inst.args) else ()
            res = ctx.call(inst.name, inst.call, f"{inst.desc[:400]} after {trace}", inst.kinds + tb, nkron=99)
            if res is SKIP:
                if ctx.violations:
                    return
                continue
            trace.append(f"{inst.name}{inst.tag}({','.join(type(x.obj).__name__ for x in inst.args)})->{type(res).__name__}")
            if g.chance(0.3) and isinstance(res, ctx.m.AbstractMatrix):
                ctx.call("dense", lambda: B.dense(res), "dense", ("tb",), nkron=99)
            if inst.matrix and np.ndim(inst.value()) >= 2:
                items.append(as_item(res, inst, B, ctx.m))
        cond = 1.0
    for obj in list(reg):
        audit(ctx, obj, f"{name}: {trace}", cond)
        if ctx.violations:
            return
    ctx.sample(" ; ".join(trace))


def derived_program(ctx, g, xs, outs, trace, pd=False):
    """Invert, solve with, and take apart general (asymmetric) operands, derive operands from
    them (transposes, multiples, selections, repetitions along the batch) after their caches
    were filled, and do the same with those."""
    B, m = ctx.B, ctx.m
    worst = max(x.cond for x in xs)
    for _ in range(int(g.rng.integers(5, 11))):
        if g.chance(0.45):
            x = g.pick(xs)
            name, run, val, _ = derive(B, m, g, x, pd)
            if val.size > 400:
                continue
            c = cond_of(val)
            if not c < 1e3 or (name in ("shift", "mulself") and x.kind == "kron"):
                continue
            res = ctx.call(name, lambda: run(x.obj), f"{name}({x.desc}) after {trace}", (x.kind,), nkron=99)
            if res is SKIP:
                if ctx.violations:
                    return worst
                continue
            big = x.cond * max(1.0, c) * 10
            if name in ("shift", "mulself") and big > 1e8:
                continue
            desc = f"{name}({x.desc})"
            xs.append(POperand(res, val, np.abs(val) + x.mag.max(), desc, x.kind, [], "f8", cond=big if name in ("shift", "mulself") else x.cond))
            trace.append(f"{name}->{type(res).__name__}")
        else:
            inst = (pd_instance if pd else inv_instance)(B, m, g, xs, outs)
            if inst is None:
                continue
            res = ctx.call(inst.name, inst.call, f"{inst.desc} after {trace}", inst.kinds, nkron=99)
            if res is SKIP:
                if ctx.violations:
                    return worst
                continue
            trace.append(inst.desc[:120])
        worst = max([worst] + [x.cond for x in xs])
    return worst**2 * 10 if pd else worst * 100
