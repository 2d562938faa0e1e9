"""Shared by the checks: tolerances, coverage signatures, and the value oracle."""

import re

import numpy as np

EPS = {"f8": 2.2e-16, "i8": 2.2e-16, "f4": 1.2e-7}


def tolfac(*dts):
    """Rounding allowance as a multiple of the sum of absolute terms."""
    return 2e4 * EPS["f8"] if "f4" not in dts else 4e3 * EPS["f4"]


def pick_dtype(rng, p=(0.84, 0.1, 0.06)):
    return str(rng.choice(["f8", "f4", "i8"], p=p))


def skeleton(desc):
    """Operand description with sizes reduced to a pattern."""

    def sub(m):
        return "".join("1" if d.strip() == "1" else "n" for d in m.group(0).split(",") if d.strip())

    return re.sub(r"\d+(, ?\d+)*,?", sub, desc.split("=")[0])[:120]


def signature(op, *xs):
    return "|".join([op] + [skeleton(x.desc) for x in xs])


def check(ctx, op, res, ref, tol, desc, kinds, *xs):
    if ctx.close(f"{op}({','.join(kinds)})", res, ref, tol + 1e-290, desc):
        if np.any(ref):
            ctx.event("nontrivial", signature(op, *xs))
        ctx.sample(desc)
        return True
    return False
