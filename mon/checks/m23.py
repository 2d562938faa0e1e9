"""M23: programs. Results are operated on again, objects are shared and used repeatedly."""

import numpy as np

from ..common import EPS, signature, skeleton
from ..core import SKIP
from ..gen import Gen
from ..ops import as_item, instance, pool

ID = "M23"
REPS = {"quick": 3000, "thorough": 60000}
BUDGET = {"quick": 100, "thorough": 800}
MIN_EVENTS = {t: {"oracle_evaluations": 10000} for t in REPS}
RULE = (
    "one case = one random straight-line program of 6 to 14 operations over a pool of operands of every type; results"
    " return to the pool (as whatever structured type the library gave them) and are used again, so that operands are"
    " shared and carry caches; after every step the result is compared with the same program on dense arrays. Integer"
    " programs are compared exactly. Distinct and non-trivial: distinct (operation, actual operand types, result type)"
)
ASSUMPTIONS = [
    "NumPy running the same program on the dense matrices is the reference",
    "programs on small integers involve no rounding; other programs are compared within 1e5 * eps * (the same program on"
    " absolute values)",
]


def strata(tier):
    return ["int", "int", "float", "unbatched"]


def run(ctx, rng, name, rep):
    B = ctx.B
    exact = name != "float"
    g = Gen(rng, ctx.m, "f8", styles=["int"] if exact else ["normal", "sparse", "int", "ones"])
    items = pool(g, 6, batch=() if name == "unbatched" else None)
    if g.chance(0.5):
        # Sums and products with identical factors: cancellation and alignment.
        items.append(items[0])
    trace = []
    for _ in range(int(rng.integers(6, 15))):
        inst = instance(B, g, items)
        if inst is None:
            break
        mag = inst.magnitude()
        if np.size(mag) == 0 or np.max(mag) > 2**46 or np.size(mag) > 3000:
            continue
        if exact and not inst.exact:
            continue
        desc = inst.desc[:500]
        tb = ("tb",) if any("TiledBlocks" in type(x.obj).__name__ for x in inst.args) else ()
        res = ctx.call(inst.name, inst.call, f"{desc} after {trace}", inst.kinds + tb, nkron=99)
        if res is SKIP:
            if ctx.violations:
                return
            continue
        tol = 0 if exact else 1e5 * EPS["f8"] * mag
        if not ctx.close(inst.name, res, inst.value(), tol, f"{desc} after {trace}"):
            return
        types = ",".join(type(x.obj).__name__ for x in inst.args)
        ctx.event("steps", f"{inst.name}{inst.tag[:6]}|{types}|{type(res).__name__}")
        trace.append(f"{inst.name}{inst.tag}({types})->{type(res).__name__}")
        if inst.matrix and np.ndim(inst.value()) >= 2:
            items.append(as_item(res, inst, B, ctx.m))
    ctx.sample(" ; ".join(trace))
