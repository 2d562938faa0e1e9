"""M18: operands that do not fit together are refused, never silently combined."""

import operator

import numpy as np

from ..common import skeleton
from ..gen import Gen, MATRIX_KINDS, SQUARE_ONLY
from ..genpd import GenPD

ID = "M18"
REPS = {"quick": 60, "thorough": 1500}
BUDGET = {"quick": 80, "thorough": 600}
MIN_EVENTS = {t: {"refusals": 15000} for t in REPS}
RULE = (
    "one case = one operation or constructor on operands of every ordered pair of types whose batch or matrix shapes do not fit"
    " under NumPy's rules (sizes 2 and up, so that no broadcasting applies; mismatch in rows, columns, inner size or batch), or on a"
    " rectangular matrix where a square one is needed: an exception must be raised. Distinct: distinct (operation, operand types"
    " incl. nested, kind of mismatch)"
)
ASSUMPTIONS = ["which shapes fit is decided by NumPy's broadcasting rules on the batch and the matrix axes"]
EL = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}
KINDS = [k for k in MATRIX_KINDS]


def strata(tier):
    out = []
    for op in EL:
        for a in KINDS + ["np"]:
            for b in KINDS + ["np"]:
                if a == b == "np" or (op == "div" and b not in ("dense", "const", "kron", "np")):
                    continue
                out.append(f"el:{op}:{a}:{b}")
    for op in ("matmul", "matmul_diag", "solve", "iqf", "iqf_diag", "ratio", "concat", "block", "trisolve", "cholsolve"):
        for a in KINDS + ["np"]:
            for b in KINDS + ["np"]:
                if a == b == "np":
                    continue
                out.append(f"{op}:{a}:{b}")
    for op in ("square", "reshape", "bto", "construct", "select"):
        out += [f"{op}:{k}" for k in KINDS] * 3
    return out


def mismatch(g, want_batch=None):
    """Two batches and a tag; they fit together unless the tag says batch."""
    n = int(g.pick([2, 2, 3, 3, 4, 4, 5, 5, 9]))
    d = int(g.pick([k for k in (2, 3, 4, 5, 6) if k != n]))
    return n, d


BATCHES = [((2,), (3,)), ((2, 2), (3, 2)), ((3,), (2, 2)), ((2, 3), (2,)), ((1, 2), (2, 3)), ((2, 1, 2), (3,))]


def must_refuse(ctx, key, f, desc, sig):
    B, m = ctx.B, ctx.m
    try:
        res = f()
        if isinstance(res, m.AbstractMatrix):
            shape = f"{type(res).__name__} of shape {tuple(B.shape(res))}"
            # A result that nothing can be computed from is refused late: the values decide.
            np.asarray(B.dense(res))
        else:
            shape = f"{type(res).__name__} of shape {np.shape(res)}"
    except RecursionError as e:
        ctx.fail(f"{key}:RecursionError", f"{desc}: {e}")
        return
    except Exception as e:
        ctx.event("refusals", f"{sig}|{type(e).__name__}")
        ctx.sample(f"{desc}: {type(e).__name__}")
        return
    ctx.fail(f"{key}:ACCEPTED", f"{desc}: gave {shape}")


def exact(g, k, r, c, b, prof="any"):
    return g.exact(k, r, c, b, prof, 1)


def run(ctx, rng, name, rep):
    B, m = ctx.B, ctx.m
    op, *ks = name.split(":")
    g = Gen(rng, m, "f8", styles=["normal", "int"])
    n, d = mismatch(g)
    if op not in ("el", "bto", "reshape") and g.chance(0.3):
        # A size of one does not broadcast here.
        n, d = (1, d) if g.chance(0.4) else (n, 1)
    if op == "el":
        op, *ks = ks
        how = g.pick(["batch", "rows", "cols"])
        sq = [k in SQUARE_ONLY for k in ks]
        if how == "batch":
            b1, b2 = BATCHES[rng.integers(len(BATCHES))]
            if g.chance(0.5):
                b1, b2 = b2, b1
            r, c = (n, n) if any(sq) or g.chance(0.5) else (n, d)
            x, y = exact(g, ks[0], r, c, b1), exact(g, ks[1], r, c, b2)
        else:
            b = g.batch(2)
            shapes = [[n, n], [n, n]]
            i = int(rng.integers(2))
            if sq[i]:
                shapes[i] = [d, d]
            elif how == "rows":
                shapes[i][0] = d
            else:
                shapes[i][1] = d
            if not any(sq) and g.chance(0.5):
                other = int(g.pick([2, 3, 4]))
                for s in shapes:
                    s[1 if how == "rows" else 0] = other
            x, y = exact(g, ks[0], *shapes[0], b), exact(g, ks[1], *shapes[1], g.sub_batch(b))
        f = EL[op]
        desc = f"{op}({x.desc}, {y.desc})"
        if how == "batch":
            assert x.val.shape[:-2] == b1 and y.val.shape[:-2] == b2, desc
        must_refuse(ctx, f"{op}({ks[0]},{ks[1]})/{how}", lambda: f(x.obj, y.obj), desc, f"{op}|{skeleton(desc)}|{how}")
        return
    if op in ("matmul", "matmul_diag", "solve", "trisolve", "cholsolve", "iqf", "iqf_diag", "ratio"):
        how = g.pick(["batch", "inner"])
        b1, b2 = BATCHES[rng.integers(len(BATCHES))] if how == "batch" else (lambda b: (b, b))(g.batch(2))
        q = d if how == "inner" else n
        if op in ("matmul", "matmul_diag"):
            ta, tb = g.chance(0.4), g.chance(0.4)
            other = n if ks[0] in SQUARE_ONLY else int(g.pick([n, 2, 3]))
            # a: other x n, b: q x other2
            other2 = q if ks[1] in SQUARE_ONLY else (other if op == "matmul_diag" else int(g.pick([q, 2, 3])))
            s1, s2 = (other, n), (q, other2)
            if op == "matmul_diag" and how == "batch" and other2 != other:
                return
            x = exact(g, ks[0], *(s1[::-1] if ta else s1), b1)
            y = exact(g, ks[1], *(s2[::-1] if tb else s2), b2)
            f = lambda: getattr(B, op)(x.obj, y.obj, tr_a=ta, tr_b=tb)  # noqa
            desc = f"{op}[{int(ta)}{int(tb)}]({x.desc}, {y.desc})"
        else:
            gp = GenPD(rng, m, "f8")
            ok = {"solve": ["dense", "diag", "lt", "ut", "wb", "kron", "np"], "trisolve": ["lt", "ut"],
                  "cholsolve": ["lt", "ut", "diag"]}.get(op, ["dense", "diag", "wb", "kron", "np"])
            k = ks[1] if op == "ratio" else ks[0]
            if k not in ok:
                return
            old, gp.sub_batch = gp.sub_batch, lambda t, p=0.5: tuple(t)
            x = (gp.inv_matrix if op in ("solve", "trisolve", "cholsolve") else gp.pd_matrix)(k, n, b1, 2, 1.0)
            kb = ks[0] if op == "ratio" else ks[1]
            c = q if kb in SQUARE_ONLY or op == "ratio" else int(g.pick([2, 3]))
            if op == "ratio":
                if kb in ("lt", "ut", "tb"):
                    return
                y = gp.pd_matrix(kb, q, b2, 2, 1.0) if kb in ("dense", "diag", "wb", "kron", "np") else gp.psd_matrix(kb, q, b2)
                if y.val.shape[:-2] != b2:
                    return
            else:
                y = exact(g, kb, q, c, b2, "unit")
            if x.val.shape[:-2] != b1:
                return
            f = {
                "solve": lambda: B.solve(x.obj, y.obj), "trisolve": lambda: B.trisolve(x.obj, y.obj),
                "cholsolve": lambda: B.cholsolve(x.obj, y.obj),
                "iqf": lambda: B.iqf(x.obj, y.obj), "iqf_diag": lambda: B.iqf_diag(x.obj, y.obj),
                "ratio": lambda: B.ratio(y.obj, x.obj),
            }[op]
            desc = f"{op}({x.desc}, {y.desc})"
        must_refuse(ctx, f"{op}({ks[0]},{ks[1]})/{how}", f, desc, f"{op}|{skeleton(desc)}|{how}")
        return
    if op in ("concat", "block"):
        b = g.batch(1)
        sq = [k in SQUARE_ONLY for k in ks]
        ax = int(g.pick([-1, -2]))
        s1, s2 = [n, n], [d, d]
        for s, q in zip((s1, s2), sq):
            if not q:
                s[ax] = int(g.pick([2, 3, 4]))
        x, y = exact(g, ks[0], *s1, b), exact(g, ks[1], *s2, b)
        desc = f"{op}({x.desc}, {y.desc}) axis={ax}"
        if op == "block" and ks == ["zero", "zero"]:
            return  # `block` assumes that the blocks align
        if op == "concat":
            f = lambda: B.concat(x.obj, y.obj, axis=ax)  # noqa
        else:
            f = (lambda: B.block([x.obj, y.obj])) if ax == -1 else (lambda: B.block([x.obj], [y.obj]))
        must_refuse(ctx, f"{op}({ks[0]},{ks[1]})/{ax}", f, desc, f"{op}|{skeleton(desc)}|{ax}")
        return
    k = ks[0]
    if op == "square":
        if k in SQUARE_ONLY:
            return
        x = exact(g, k, n, d, g.batch(2))
        what = g.pick(["cholesky", "root", "inv", "pd_inv", "logdet", "eye"])
        f = lambda: getattr(B, what)(x.obj)  # noqa
        must_refuse(ctx, f"{what}({k})", f, f"{what}({x.desc})", f"{what}|{skeleton(x.desc)}")
    elif op == "select":
        x = exact(g, k, n, n, g.batch(2))
        rank = x.val.ndim
        what = g.pick(["take grid", "take axis", "sum axis", "submatrix grid", "take range", "take mask", "submatrix range"])
        if ("Zero" in x.desc or "Constant" in x.desc) and what.endswith(("range", "mask")):
            return  # (nothing is looked up)
        bad = int(g.pick([-rank - 1, rank, rank + 1]))
        ax = int(g.pick([-1, -2]))
        far = [0, int(g.pick([n, n + 1, -n - 1]))]
        grid = np.zeros((2, 2), int)
        f = {
            "take grid": lambda: B.take(x.obj, grid, axis=ax), "take axis": lambda: B.take(x.obj, [0], axis=bad),
            "sum axis": lambda: B.sum(x.obj, axis=bad), "submatrix grid": lambda: B.submatrix(x.obj, grid),
            "take range": lambda: B.take(x.obj, far, axis=ax), "submatrix range": lambda: B.submatrix(x.obj, far),
            "take mask": lambda: B.take(x.obj, np.ones(n + 1 if n <= 2 or g.chance(0.5) else n - 1, bool), axis=ax),
        }[what]
        desc = f"{what}({x.desc}) axis={bad if 'axis' in what else ax}, {far}"
        must_refuse(ctx, f"{what}({k})", f, desc, f"{what}|{skeleton(x.desc)}|{bad}|{far}")
    elif op == "reshape":
        x = exact(g, k, n, n, g.batch(2))
        shp = g.pick([(x.val.size + 1,), (2, x.val.size), (-1, x.val.size - 1)])
        must_refuse(ctx, f"reshape({k})", lambda: B.reshape(x.obj, *shp), f"reshape({x.desc}, {shp})", f"reshape|{skeleton(x.desc)}|{len(shp)}")
    elif op == "bto":
        b = g.batch(2)
        x = exact(g, k, n, n, b)
        bad = g.pick(["rows", "cols", "batch", "drop", "shrink", "row", "col"])
        tgt = list(b) + [n, n]
        if bad in ("drop", "shrink"):
            # Broadcasting never takes batch dimensions away.
            if not b or x.val.shape[0] == 1:
                return
            tgt = tgt[1:] if bad == "drop" else [1] + tgt[1:]
        elif bad in ("row", "col"):
            tgt[-2 if bad == "row" else -1] = 1
        elif bad == "batch":
            if not b or x.val.shape[0] == 1:
                return
            tgt[0] += 1
        else:
            tgt[-2 if bad == "rows" else -1] = d
        if g.chance(0.5) and bad in ("batch", "drop", "shrink"):
            f, desc = (lambda: B.broadcast_batch_to(x.obj, *tgt[:-2])), "broadcast_batch_to"
        else:
            f, desc = (lambda: B.broadcast_to(x.obj, *tgt)), "broadcast_to"
        must_refuse(ctx, f"{desc}({k})/{bad}", f, f"{desc}({x.desc}, {tgt})", f"{desc}|{skeleton(x.desc)}|{bad}")
    else:
        construct(ctx, rng, g, k, n, d)


def construct(ctx, rng, g, k, n, d):
    B, m = ctx.B, ctx.m
    r = lambda *s: rng.standard_normal(s)  # noqa
    b1, b2 = BATCHES[rng.integers(len(BATCHES))]
    one = n == 1 or d == 1  # (1x1 matrices broadcast)
    opts = {
        "lr": [
            ("inner", lambda: m.LowRank(r(3, n), r(3, d))), ("middle", lambda: m.LowRank(r(3, n), r(3, n), r(d, d))),
            ("middle rows", lambda: m.LowRank(r(3, n), r(3, n), r(d, n))),
            ("middle cols", lambda: m.LowRank(r(3, n), r(3, n), r(n, d))),
            ("batch", lambda: m.LowRank(r(*b1, 3, n), r(*b2, 3, n))),
        ],
        "wb": not one and [
            ("size", lambda: m.Woodbury(m.Diagonal(r(n)), m.LowRank(r(d, 1)))),
            ("rectangular", lambda: m.Woodbury(m.Diagonal(r(n)), m.LowRank(r(n, 1), r(d, 1)))),
            ("batch", lambda: m.Woodbury(m.Diagonal(r(*b1, n)), m.LowRank(r(*b2, n, 1)))),
        ],
        "kron": [("batch", lambda: m.Kronecker(m.Dense(r(*b1, n, n)), m.Dense(r(*b2, d, d))))],
        "tb": [
            ("cols", lambda: m.TiledBlocks((m.Dense(r(n, n)), 2), (m.Dense(r(n, d)), 1), axis=-2)),
            ("rows", lambda: m.TiledBlocks((m.Dense(r(n, n)), 2), (m.Dense(r(d, n)), 1), axis=-1)),
            ("batch", lambda: m.TiledBlocks((m.Dense(r(*b1, n, n)), 2), (m.Dense(r(*b2, n, n)), 1), axis=-1)),
        ],
        "const": [("batch", lambda: m.Constant(r(*b1), *b2, n, n))],
    }.get(k)
    if not opts:
        return
    what, f = opts[rng.integers(len(opts))]
    must_refuse(ctx, f"construct({k})/{what}", f, f"construct {k} {what} n={n} d={d} {b1} {b2}", f"construct|{k}|{what}|{n}|{d}|{b1}")
