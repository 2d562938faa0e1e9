"""The same matrices with JAX arrays (or tracers) inside."""

import numpy as np


def leaves(obj, out=None, seen=None):
    """The numeric arrays of an operand, in a fixed order; shared parts once."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    t = type(obj).__name__
    if isinstance(obj, (np.ndarray, np.generic)):
        if isinstance(obj, np.generic) or id(obj) not in seen:
            seen.add(id(obj))
            out.append(np.asarray(obj))
        return out
    if id(obj) in seen or isinstance(obj, (int, float, bool)):
        return out
    seen.add(id(obj))
    for p in _parts(obj, t):
        leaves(p, out, seen)
    return out


def _parts(obj, t):
    if t == "Zero":
        return []
    if t in ("Dense", "LowerTriangular", "UpperTriangular"):
        return [obj.mat]
    if t == "Diagonal":
        return [obj.diag]
    if t == "Constant":
        return [obj.const]
    if t == "LowRank":
        mid = obj.__dict__.get("_middle")
        return [obj.left, obj.right] + ([mid] if mid is not None else [])
    if t == "Woodbury":
        return [obj.diag, obj.lr]
    if t == "Kronecker":
        return [obj.left, obj.right]
    if t == "TiledBlocks":
        return list(obj.blocks)
    raise NotImplementedError(t)


def rebuild(m, obj, it, memo=None, zero_dtype=None):
    """Rebuild `obj` around the arrays in `it`."""
    memo = {} if memo is None else memo
    t = type(obj).__name__
    if isinstance(obj, (int, float, bool)) and not isinstance(obj, np.generic):
        return obj
    if not isinstance(obj, np.generic) and id(obj) in memo:
        return memo[id(obj)]
    f = lambda o: rebuild(m, o, it, memo, zero_dtype)  # noqa
    if isinstance(obj, (np.ndarray, np.generic)):
        res = next(it)
    elif t == "Zero":
        res = m.Zero(zero_dtype or obj.dtype, *obj.batch, obj.rows, obj.cols)
    elif t == "LowRank":
        mid = obj.__dict__.get("_middle")
        left, right = f(obj.left), f(obj.right)
        res = m.LowRank(left, right, *([f(mid)] if mid is not None else []))
    elif t == "Constant":
        res = m.Constant(f(obj.const), *((int(obj.rows), int(obj.cols))))
    elif t == "TiledBlocks":
        bs = [f(b) for b in obj.blocks]
        res = m.TiledBlocks(*zip(bs, obj.reps), axis=obj.axis)
    else:
        res = getattr(m, t)(*[f(p) for p in _parts(obj, t)])
    if not isinstance(obj, np.generic):
        memo[id(obj)] = res
    return res
