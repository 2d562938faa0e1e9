"""M14: operations keep structure: result types, ranks and cancellation."""

import numpy as np

from ..common import skeleton
from ..core import SKIP
from ..gen import Gen, MATRIX_KINDS, SQUARE_ONLY
from ..genpd import GenPD

ID = "M14"
REPS = {"quick": 110, "thorough": 1500}
BUDGET = {"quick": 90, "thorough": 700}
MIN_EVENTS = {t: {"promised_types": 10000, "assembled_types": 1500, "cancellations": 300, "rank_bounds": 300} for t in REPS}
RULE = (
    "one case = one operation on freshly generated operands of given types whose result type is promised, or a sum in which"
    " low-rank terms share columns or cancel; the monitor reads the type and the rank of the result. Distinct: distinct"
    " (operation, operand types incl. nested factors, batch and size pattern)"
)
ASSUMPTIONS = [
    "a more specialised type keeps the promise too (zero for anything, diagonal for triangular or Woodbury, constant for"
    " low-rank, low-rank or diagonal for Woodbury)",
]
NAMES = dict(zero="Zero", dense="Dense", diag="Diagonal", const="Constant", lt="LowerTriangular", ut="UpperTriangular", lr="LowRank",
             wb="Woodbury", kron="Kronecker")
SUB = {
    "Zero": {"Zero"},
    "Constant": {"Zero", "Constant"},
    "Diagonal": {"Zero", "Diagonal"},
    "LowerTriangular": {"Zero", "Diagonal", "LowerTriangular"},
    "UpperTriangular": {"Zero", "Diagonal", "UpperTriangular"},
    "LowRank": {"Zero", "Constant", "LowRank"},
    "Woodbury": {"Zero", "Constant", "Diagonal", "LowRank", "Woodbury"},
    "Kronecker": {"Zero", "Constant", "Diagonal", "LowRank", "Kronecker"},
}
KINDS = [k for k in MATRIX_KINDS if k not in ("tb", "dense")]


def add_type(a, b):
    s = {a, b}
    if "zero" in s:
        return NAMES[a if b == "zero" else b]
    if a == b:
        return NAMES[a] if a != "kron" else None
    if "kron" in s or "dense" in s or s == {"lt", "ut"}:
        return None
    if s & {"lt", "ut"}:
        return NAMES[(s & {"lt", "ut"}).pop()] if "diag" in s else None
    if s == {"const", "lr"}:
        return "LowRank"
    return "Woodbury"  # two of diag, const, lr, wb


def mul_type(a, b):
    s = {a, b}
    if "zero" in s:
        return "Zero"
    if "diag" in s or s == {"lt", "ut"}:
        return "Diagonal"
    if s & {"lt", "ut"}:
        return NAMES[(s & {"lt", "ut"}).pop()]
    if a == b:
        return NAMES[a]
    if "const" in s:
        return NAMES[(s - {"const"}).pop()]
    return "Woodbury" if s == {"lr", "wb"} else None


def mat_type(a, b):
    s = {a, b}
    if "zero" in s:
        return "Zero"
    if a == b:
        return NAMES[a]
    if s & {"const", "lr"}:
        return "LowRank"
    if "diag" in s:
        o = (s - {"diag"}).pop()
        return NAMES[o] if o != "kron" else None
    return None


def kron_type(a, b):
    if "zero" in (a, b):
        return "Zero"
    return "Constant" if a == b == "const" else "Kronecker"


UN = ["neg", "scale", "rscale", "div", "cast", "bbt", "batchtake", "T", "zerotimes", "plus", "abs", "square", "rows", "submatrix", "inv",
      "pd_inv", "cholesky", "root", "batchsum", "zeros", "solve"]


ASM = ["block zero", "block diag", "block_diag diag", "block_diag zero", "one block", "tile", "broadcast_to", "concat tb", "transpose tb",
       "eye", "ones", "three", "fill_diag"]


def strata(tier):
    out = [f"{op}:{a}:{b}" for op in ("add", "sub", "mul", "matmul", "kron") for a in KINDS for b in KINDS]
    out += [f"un:{u}:{k}" for u in UN for k in KINDS]
    out += [f"asm:{a}" for a in ASM] * 3
    out += ["cancel:lr", "cancel:wb", "cancel:inv", "rank:add", "rank:mul", "rank:matmul"] * 12
    return out


def judge(ctx, op, res, want, desc, *xs):
    if res is SKIP or want is None:
        return
    ctx.event("promised_types", "|".join([op] + [skeleton(x.desc) for x in xs]))
    t = type(res).__name__
    if t not in SUB.get(want, {want}):
        ctx.fail(f"{op}:TYPE", f"{desc}: the result is a {t}, promised {want}")


def unary(ctx, g, u, k):
    B, m, rng = ctx.B, ctx.m, g.rng
    n = g.dim()
    square = k in SQUARE_ONLY or g.chance(0.5)
    batch = g.batch()
    if u in ("inv", "pd_inv", "cholesky", "root", "solve"):
        ok = {"inv": ("diag", "wb", "kron"), "pd_inv": ("diag", "wb", "kron"), "cholesky": ("zero", "diag", "const", "kron"),
              "root": ("zero", "diag", "const", "kron"), "solve": ("diag", "wb")}[u]
        if k not in ok:
            return
        gp = GenPD(rng, m, "f8")
        if k in ("zero", "const", "lr"):
            x = gp.psd_matrix(k, n, batch) if k != "zero" else gp.matrix("zero", n, n, batch)
        else:
            x = gp.pd_matrix(k, n, batch, 0, 1.0)
        desc = f"{u}({x.desc})"
        if u == "solve":
            r = g.pick(["diag", "wb", "lr", "const"])
            y = gp.matrix(r, n, n, batch, "unit")
            res = ctx.call(u, lambda: B.solve(x.obj, y.obj), desc, (k, r))
            want = NAMES[r] if r in ("lr", "const") else ("Diagonal" if (k, r) == ("diag", "diag") else "Woodbury")
            want = "LowRank" if r == "const" else want
            return judge(ctx, u, res, want, f"{u}({x.desc}, {y.desc})", x, y)
        res = ctx.call(u, lambda: getattr(B, u)(x.obj), desc, (k,))
        return judge(ctx, u, res, NAMES[k], desc, x)
    if u in ("batchtake", "batchsum") and not batch:
        batch = (int(rng.integers(1, 4)),)
    x = g.matrix(k, n, n if square else g.dim(), batch)
    b, o = x.val.shape[:-2], x.obj
    c = g.pick([2, 2.5, -1.0, np.float64(3)])
    want = NAMES[k]
    if u == "neg":
        f = lambda: -o  # noqa
    elif u == "scale":
        f = lambda: c * o  # noqa
    elif u == "rscale":
        f = lambda: o * c  # noqa
    elif u == "div":
        f = lambda: o / c  # noqa
    elif u == "cast":
        f = lambda: B.cast(np.float32, o)  # noqa
    elif u == "bbt":
        f = lambda: B.broadcast_batch_to(o, 2, *b)  # noqa
    elif u == "batchtake":
        if not b:
            return
        ax = int(rng.integers(len(b)))
        f = lambda: B.take(o, rng.integers(0, b[ax], size=2), axis=ax)  # noqa
    elif u == "T":
        f = lambda: o.T  # noqa
        want = {"lt": "UpperTriangular", "ut": "LowerTriangular"}.get(k, want)
    elif u == "zerotimes":
        z = g.pick([0, 0.0])
        f = lambda: z * o  # noqa
        want = "Zero"
    elif u == "zeros":
        f = lambda: B.zeros(o)  # noqa
        want = "Zero"
    elif u == "plus":
        f = lambda: o + c  # noqa
        want = {"zero": "Constant", "diag": "Woodbury", "const": "Constant", "lr": "LowRank", "wb": "Woodbury"}.get(k)
    elif u in ("abs", "square"):
        f = (lambda: B.abs(o)) if u == "abs" else (lambda: o**2)
        want = want if k not in ("lr", "wb") else None
    elif u == "rows":
        ax = g.pick([-1, -2])
        f = lambda: B.take(o, rng.integers(0, x.val.shape[ax], size=2), axis=ax)  # noqa
        want = want if k in ("zero", "const", "lr") else None
    elif u == "submatrix":
        if x.val.shape[-1] != x.val.shape[-2]:
            return
        idx = np.sort(rng.permutation(n)[: rng.integers(1, n + 1)])
        f = lambda: B.submatrix(o, idx)  # noqa
        want = want if k != "kron" else None
    elif u == "batchsum":
        if not b or k not in ("diag", "const"):
            return
        f = lambda: B.sum(o, axis=int(rng.integers(len(b))))  # noqa
    desc = f"{u}({x.desc})"
    judge(ctx, u, ctx.call(u, f, desc, (k,)), want, desc, x)


def assembled(ctx, g, what):
    """Blocks, tilings and the like of structured matrices."""
    B, m, rng = ctx.B, ctx.m, g.rng
    batch = g.batch()
    dim = lambda: int(rng.integers(1, 5))  # noqa
    if what.startswith("block"):
        k = int(rng.integers(2, 4))
        diag = what.endswith("diag")
        heights = [dim() for _ in range(k)]
        widths = heights if diag else [dim() for _ in range(int(rng.integers(1, 4)))]
        zero = lambda r, c: g.matrix("zero", r, c, g.sub_batch(batch))  # noqa
        lead = int(rng.integers(k))

        def on_diagonal(i):
            return g.matrix("diag" if i == lead or g.chance(0.7) or "_diag" in what else "zero", heights[i], heights[i], g.sub_batch(batch))

        if what.startswith("block_diag"):
            xs = [on_diagonal(i) if diag else zero(h, dim()) for i, h in enumerate(heights)]
            f = lambda: B.block_diag(*[x.obj for x in xs])  # noqa
        else:
            grid = [[on_diagonal(i) if diag and i == j else zero(h, w) for j, w in enumerate(widths)] for i, h in enumerate(heights)]
            xs = sum(grid, [])
            f = lambda: B.block(*[[x.obj for x in row] for row in grid])  # noqa
        want = "Diagonal" if diag else "Zero"
    elif what == "one block":
        k = g.pick(KINDS)
        xs = [g.matrix(k, *((lambda n: (n, n))(dim()) if k in SQUARE_ONLY else (dim(), dim())), batch)]
        f = (lambda: B.block([xs[0].obj])) if g.chance(0.5) else (lambda: B.block_diag(xs[0].obj))  # noqa
        want = NAMES[k]
    elif what == "tile":
        k = g.pick(["zero", "const"])
        xs = [g.matrix(k, dim(), dim(), batch)]
        reps = [int(rng.integers(1, 4)) for _ in xs[0].val.shape]
        f = lambda: B.tile(xs[0].obj, *reps)  # noqa
        want = NAMES[k]
    elif what == "broadcast_to":
        k = g.pick(KINDS)
        n = dim()
        xs = [g.matrix(k, n, n if k in SQUARE_ONLY else dim(), batch)]
        s = list(xs[0].val.shape)
        if k in ("zero", "const"):
            xs = [g.matrix(k, *[d if g.chance(0.6) else 1 for d in s[-2:]], batch)]
        shape = [int(rng.integers(1, 4))] * g.chance(0.6) + [dim() if d == 1 else d for d in xs[0].val.shape[:-2]] + s[-2:]
        f = lambda: B.broadcast_to(xs[0].obj, *shape)  # noqa
        want = NAMES[k]
    elif what == "concat tb":
        ax = g.pick([-2, -1])
        r, c = dim(), dim()
        tb = lambda: m.TiledBlocks(  # noqa
            *[(g.matrix("dense", *((dim(), c) if ax == -2 else (r, dim())), ()).obj, int(rng.integers(1, 3))) for _ in range(2)], axis=ax
        )
        xs = [g.matrix("dense", r, c, ())]
        a, b = tb(), tb()
        f = lambda: B.concat(a, b, axis=ax)  # noqa
        want = "TiledBlocks"
    elif what == "transpose tb":
        xs = [g.matrix("tb", dim(), dim(), batch)]
        f = lambda: B.transpose(xs[0].obj)  # noqa
        want = "TiledBlocks"
    elif what in ("eye", "ones"):
        k = g.pick(KINDS)
        n = dim()
        xs = [g.matrix(k, n, n, batch)]
        f = lambda: getattr(B, what)(xs[0].obj)  # noqa
        want = "Diagonal" if what == "eye" else "Constant"
    elif what == "three":
        # A product of three is as structured as the products of two.
        n = g.dim()
        ks = [g.pick(["zero", "diag", "const", "lr", "lt", "ut"]) for _ in range(3)]
        xs = [g.matrix(k, n, n, batch) for k in ks]
        f = lambda: B.matmul(*[x.obj for x in xs])  # noqa
        one = {v: k for k, v in NAMES.items()}
        if "zero" in ks:
            want = "Zero"
        elif set(ks) & {"const", "lr"}:
            want = "LowRank"
        else:
            left, right = mat_type(*ks[:2]), mat_type(*ks[1:])
            ends = [mat_type(one[left], ks[2]) if left else None, mat_type(ks[0], one[right]) if right else None]
            want = ends[0] if ends[0] == ends[1] else None
    else:
        raws = g.raw(batch)
        xs = [g.matrix("const", 1, 1, ())]
        f = lambda: B.fill_diag(raws if batch else float(raws), dim())  # noqa
        want = "Diagonal"
    desc = f"{what}({', '.join(x.desc for x in xs)})"
    res = ctx.call(what, f, desc, tuple(x.kind for x in xs))
    judge(ctx, what, res, want, desc, *xs)
    if res is not SKIP:
        ctx.event("assembled_types")


def simple_lr(g, m, n, b, r):
    """A low-rank matrix with square numeric middle of full rank `r`."""
    return g.raw(b + (m, r), "unit"), g.raw(b + (n, r), "unit"), np.eye(r) + 0.3 * g.raw(b + (r, r), "unit")


def rank_case(ctx, g, op):
    B, m, rng = ctx.B, ctx.m, g.rng
    b = g.batch(2)
    mm_, n = int(rng.integers(2, 8)), int(rng.integers(2, 8))
    ra, rb = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if op == "matmul":
        k = int(rng.integers(2, 8))
        A, C = simple_lr(g, mm_, k, b, ra), simple_lr(g, k, n, b, rb)
        bound = max(ra, rb)  # the rank reported is that of left and right columns
    else:
        A, C = simple_lr(g, mm_, n, b, ra), simple_lr(g, mm_, n, b, rb)
        bound = ra + rb if op == "add" else ra * rb
    shared = 0
    if op == "add":
        shared = int(rng.integers(0, min(ra, rb) + 1))
        pa, pb = rng.permutation(ra)[:shared], rng.permutation(rb)[:shared]
        C[0][..., pb], C[1][..., pb] = A[0][..., pa], A[1][..., pa]
        bound -= shared
    sym = mm_ == n and g.chance(0.4)
    mk = lambda t: m.LowRank(t[0], t[0] if sym else t[1], t[2])  # noqa
    x, y = mk(A), mk(C)
    f = {"add": lambda: x + y, "mul": lambda: x * y, "matmul": lambda: B.matmul(x, y, tr_b=sym and bool(rng.integers(2)))}[op]
    if op == "matmul" and sym and mm_ != k:
        return
    if op == "add" and g.chance(0.3):
        f = lambda: x - y  # noqa
    desc = f"{op}(LowRank rank {ra}, LowRank rank {rb}) with {shared} shared columns, batch {b}, sizes {mm_}x{n} sym={sym}"
    res = ctx.call(op, f, desc, ("lr", "lr"))
    if res is SKIP:
        return
    if type(res).__name__ not in ("LowRank", "Constant", "Zero"):
        return ctx.fail(f"rank:{op}:TYPE", f"{desc}: the result is a {type(res).__name__}")
    ctx.event("rank_bounds", f"rank|{op}|{ra}|{rb}|{shared}|{len(b)}|{sym}")
    if type(res).__name__ == "LowRank":
        cols = max(np.asarray(B.dense(res.left)).shape[-1], np.asarray(B.dense(res.right)).shape[-1])
        mid = min(np.asarray(B.dense(res.middle)).shape[-2:])
        got = mid if op == "matmul" else cols
        bound = min(ra, rb) if op == "matmul" else bound
        if got > bound or res.rank > bound:
            ctx.fail(f"rank:{op}", f"{desc}: {got} columns, rank {res.rank}, expected at most {bound}")


def cancel_case(ctx, g, what):
    B, m, rng = ctx.B, ctx.m, g.rng
    b = g.batch(2)
    n = int(rng.integers(2, 8))
    r = int(rng.integers(1, 4))
    mr = n if what != "lr" or g.chance(0.5) else int(rng.integers(2, 8))
    L, R, M = simple_lr(g, mr, n, b, r)
    s = 10.0 ** float(g.pick([0, 0, -9, 9]))
    L = L * s
    dt = str(g.pick(["f8", "f8", "f4", "i8", "zero"])) if what == "lr" else "f8"
    if dt == "zero":
        L = 0 * L
    elif dt == "f4":
        L, R, M = (np.asarray(t, np.float32) for t in (L, R, M))
    elif dt == "i8":
        while True:
            L, R, M = (rng.integers(-4, 5, size=t.shape) for t in (L, R, M))
            # Columns of distinct norms in the first element of the batch.
            if all(len(set(np.sum(t[(0,) * len(b)] ** 2, axis=0))) == r for t in (L, R)) and np.any(M):
                break
    wrap = (lambda x: m.Dense(x)) if g.chance(0.5) else (lambda x: x)
    have_m, sym = g.chance(0.5), mr == n and g.chance(0.5)
    p = np.arange(r) if dt == "zero" else rng.permutation(r)

    def lr(perm=False, copy=False):
        l, q, mid = L, R, M
        if perm:
            l, q, mid = l[..., p], q[..., p], mid[..., p, :][..., :, p]
        if copy:
            l, q, mid = l.copy(), q.copy(), mid.copy()
        kw = {}
        if not sym:
            kw["right"] = wrap(q)
        if have_m:
            kw["middle"] = wrap(mid)
        return m.LowRank(wrap(l), **kw)

    x = lr()
    if what == "lr":
        how = g.pick(["self", "copy", "permuted", "twice", "negplus", "thirds", "T"])
        y = lr(perm=how == "permuted", copy=True)
        f = {"self": lambda: x - x, "copy": lambda: x - y, "permuted": lambda: x - y, "twice": lambda: 2 * x - x - y,
             "negplus": lambda: -x + y, "thirds": lambda: x + y - 2 * y, "T": lambda: (x.T - y.T).T}[how]
        want = "Zero"
    elif what == "wb":
        d = m.Diagonal(g.raw(g.sub_batch(b) + (n,), "pos"))
        d2 = m.Diagonal(g.raw(g.sub_batch(b) + (n,), "pos"))
        y = lr(perm=g.chance(0.5), copy=True)
        c = float(rng.uniform(0.5, 3))
        how = g.pick(["w-lr", "lr-w", "w-w", "const", "constlr"])
        f = {"w-lr": lambda: (d + x) - y, "lr-w": lambda: y - (d + x), "w-w": lambda: (d + x) - (d2 + y), "const": lambda: (d + c) - c,
             "constlr": lambda: ((d + c) + x) - y - c}[how]
        want = "Diagonal"
    else:
        # The identity of the documentation: inverting twice gives the same low-rank part.
        gp = GenPD(rng, m, "f8")
        d = m.Diagonal(rng.uniform(0.5, 2, size=b + (n,)))
        r = min(r, n)
        L2 = np.linalg.qr(rng.standard_normal(b + (n, n)))[0][..., :r] * rng.permutation([1.0, 1.4, 0.7])[:r]
        c = float(rng.uniform(0.5, 3))
        l = m.LowRank(wrap(L2)) if g.chance(0.6) else m.Constant(c, n, n)
        w = d + l
        inv = g.pick([B.inv, B.pd_inv])
        how = "inv-inv"
        f = lambda: B.inv(inv(w)) - l  # noqa
        want = "Diagonal"
    desc = f"cancel {what}:{how} rank {r}, batch {b}, sizes {mr}x{n}, middle={have_m} sym={sym} scale={s} {dt}"
    res = ctx.call(f"cancel:{what}", f, desc, ("lr", "lr"))
    if res is SKIP:
        return
    ctx.event("cancellations", f"cancel|{what}|{how}|{r}|{have_m}|{sym}|{len(b)}|{s}|{dt}")
    if type(res).__name__ not in SUB[want]:
        ctx.fail(f"cancel:{what}", f"{desc}: the result is a {type(res).__name__}, promised {want}")


def run(ctx, rng, name, rep):
    B = ctx.B
    op, *ks = name.split(":")
    g = Gen(rng, ctx.m, "f8")
    if op == "un":
        return unary(ctx, g, *ks)
    if op == "asm":
        return assembled(ctx, g, *ks)
    if op == "cancel":
        return cancel_case(ctx, g, ks[0])
    if op == "rank":
        return rank_case(ctx, g, ks[0])
    ka, kb = ks
    batch = g.batch()
    square = ka in SQUARE_ONLY or kb in SQUARE_ONLY or g.chance(0.3)
    n = g.dim()
    m_, k_ = (n, n) if square else (g.dim(), g.dim())
    if op in ("add", "sub", "mul"):
        sa = sb = (m_, n)
    elif op == "matmul":
        sa, sb = (m_, k_), (k_, n)
    else:
        g2 = lambda k: (lambda a: (a, a) if k in SQUARE_ONLY else (a, g.dim(4)))(g.dim(4))  # noqa
        sa, sb = g2(ka), g2(kb)
    a, b = g.matrix(ka, *sa, batch), g.matrix(kb, *sb, batch)
    same = sa == sb and ka == kb and g.chance(0.1)
    if same:
        b = a
    x, y = a.obj, b.obj
    desc = f"{op}({a.desc}, {b.desc})"
    if op in ("add", "sub"):
        f, want = ((lambda: x + y) if op == "add" else (lambda: x - y)), add_type(ka, kb)
    elif op == "mul":
        f, want = (lambda: x * y), mul_type(ka, kb)
    elif op == "kron":
        f, want = (lambda: B.kron(x, y)), kron_type(ka, kb)
    else:
        ta, tb = g.chance(0.4), g.chance(0.4)
        want = mat_type(ka, kb)
        sw = {"lt": "UpperTriangular", "ut": "LowerTriangular"}
        if ka == kb and ka in sw:
            want = None if ta != tb else (sw[ka] if ta else want)
        elif {ka, kb} in ({"diag", "lt"}, {"diag", "ut"}):
            t = (ta, ka) if ka != "diag" else (tb, kb)
            want = sw[t[1]] if t[0] else want
        if ta and sa[0] != sa[1] and not same:
            x = x.T
        if tb and sb[0] != sb[1] and not same:
            y = y.T
        if x.shape[-2 if ta else -1] != y.shape[-1 if tb else -2]:
            return
        desc += f" tr_a={ta} tr_b={tb}"
        f = lambda: B.matmul(x, y, tr_a=ta, tr_b=tb)  # noqa
    res = ctx.call(op, f, desc, (ka, kb))
    judge(ctx, op, res, want, desc, a, b)
